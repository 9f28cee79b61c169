// C15: radius search returns exactly the points within the radius
#include "glue.h"
#include <numeric>
using P = spoc::point::point<double>;
using Points = std::vector<P>;
using Idx = std::vector<size_t>;
using Found = std::vector<Idx>;
namespace rs = spoc::radius_search;

static P pt (double x, double y, double z) { P p; p.x = x; p.y = y; p.z = z; return p; }
static std::string sh (const Points &v) { std::string s; for (auto &p : v) s += mc::fmt ("(%g %g %g) ", p.x, p.y, p.z); return s; }
static std::string sh (const Idx &v) { std::string s = "["; for (auto &p : v) s += (s.size () > 1 ? " " : "") + std::to_string (p); return s + "]"; }
static Idx all_of (size_t n) { Idx v (n); std::iota (v.begin (), v.end (), 0); return v; }

// The positions in 'ni' within the radius, by definition. All coordinates are small multiples of a power of
// two, so that squared distances are exact.
static Idx within (const Points &p, size_t q, const Idx &ni, double r)
{
    Idx v;
    for (size_t j = 0; j < ni.size (); ++j)
    {
        const long double dx = (long double) p[q].x - p[ni[j]].x, dy = (long double) p[q].y - p[ni[j]].y, dz = (long double) p[q].z - p[ni[j]].z;
        if (dx * dx + dy * dy + dz * dz <= (long double) r * r) v.push_back (j);
    }
    return v;
}
static const size_t NOLIMIT = 1000000;
enum Kind { FULL, INDEXES, ALL_NEIGHBORS, ALL, GET, KINDS };
static const char *KIND[] = {"radius_search", "radius_search_indexes", "radius_search_all_neighbors", "radius_search_all", "radius_search_get_neighbors"};
// limit -1: the default limit
template<typename T> Found search (int kind, const T &p, const Idx &pi, const Idx &ni, double r, long limit, std::vector<int> &calls)
{
    const size_t nq = kind >= ALL ? p.size () : pi.size ();
    Found f (nq); calls.assign (nq, 0);
    bool bad = false;
    auto op = [&] (size_t i, const std::vector<size_t> &n) { if (i >= nq) { bad = true; return; } ++calls[i]; f[i] = n; };
    mc::step ();
    switch (kind)
    {
        case FULL: if (limit < 0) rs::radius_search (p, pi, ni, r, op); else rs::radius_search (p, pi, ni, r, op, (size_t) limit); break;
        case INDEXES: if (limit < 0) rs::radius_search_indexes (p, pi, r, op); else rs::radius_search_indexes (p, pi, r, op, (size_t) limit); break;
        case ALL_NEIGHBORS: rs::radius_search_all_neighbors (p, pi, r, op, limit < 0 ? 32 : (size_t) limit); break;
        case ALL: if (limit < 0) rs::radius_search_all (p, r, op); else rs::radius_search_all (p, r, op, (size_t) limit); break;
        default: f = rs::radius_search_get_neighbors (p, r); calls.assign (nq, 1); MC_CHECK (f.size () == nq, "result-size", "%zu lists for %zu points", f.size (), nq);
    }
    MC_CHECK (!bad, "op-index", "%s: operation called with an index that is not a query", KIND[kind]);
    return f;
}
template<typename T> void check (int kind, const Points &p, const T &tp, Idx pi, Idx ni, double r, long limit)
{
    // What the variant stands for
    if (kind == INDEXES) ni = pi;
    if (kind == ALL_NEIGHBORS) ni = all_of (p.size ());
    if (kind >= ALL) pi = ni = all_of (p.size ());
    const size_t lim = kind == GET || limit < 0 ? 32 : (size_t) limit;
    std::vector<int> calls;
    const Found f = search (kind, tp, pi, ni, r, limit, calls);
    auto who = [&] (size_t i) { return mc::fmt ("%s of %s radius %g limit %ld queries %s neighbors %s: query %zu", KIND[kind], sh (p).c_str (), r, limit, sh (pi).c_str (), sh (ni).c_str (), i); };
    uint64_t h = 0;
    for (size_t i = 0; i < pi.size (); ++i)
    {
        MC_CHECK (calls[i] == 1, "op-calls", "%s: operation called %d times", who (i).c_str (), calls[i]);
        const Idx want = within (p, pi[i], ni, r);
        Idx got = f[i];
        std::sort (got.begin (), got.end ());
        MC_CHECK (std::adjacent_find (got.begin (), got.end ()) == got.end (), "duplicate", "%s: %s names a neighbor twice", who (i).c_str (), sh (f[i]).c_str ());
        MC_CHECK (std::includes (want.begin (), want.end (), got.begin (), got.end ()), "invalid-neighbor", "%s: %s, within the radius are %s", who (i).c_str (), sh (f[i]).c_str (), sh (want).c_str ());
        MC_CHECK (got.size () == std::min (lim, want.size ()), "missing-neighbor", "%s: %s, within the radius are %s", who (i).c_str (), sh (f[i]).c_str (), sh (want).c_str ());
        for (size_t x : got) h = mc::hash_bytes (&x, 8, h + 1);
    }
    mc::state (h ^ mc::hash_bytes (p.data (), p.size () * sizeof (P)));
    mc::validated ();
    // Once more, at another place on the stack
    std::vector<int> c2;
    const auto deep = [&] () __attribute__ ((noinline)) { volatile char *room = (volatile char *) __builtin_alloca (4096 + 272); room[0] = 1; return search (kind, tp, pi, ni, r, limit, c2); };
    MC_CHECK (deep () == f, "repeatable", "%s: another result the second time", who (0).c_str ());
}
static void check (int kind, const Points &p, const Idx &pi, const Idx &ni, double r, long limit) { check (kind, p, p, pi, ni, r, limit); }
static void check_all (const Points &p, double r)
{
    const Idx a = all_of (p.size ());
    for (int k = 0; k < KINDS; ++k) check (k, p, a, a, r, k == GET ? -1 : NOLIMIT);
    for (size_t lim = 0; lim <= p.size () + 1; ++lim) check (ALL, p, a, a, r, lim);
}

// Points on a line
MC_SCENARIO ("line", 0, 0)
{
    const int axis = mc::choose (3), n = mc::choose (mc::thorough () ? 6 : 5);
    static const std::vector<double> R {0.5, 1, 2};
    const double r = mc::choose_from (R);
    const double base = mc::choose_from (std::vector<double> {0, -1.25, 1048576});
    Points p;
    for (int k = 0; k < n; ++k) { double c[3] = {0, 0, 0}; c[axis] = base + 0.5 * mc::choose (mc::thorough () ? 8 : 6); p.push_back (pt (c[0], c[1], c[2])); }
    check_all (p, r);
}
// In space: every set of cells of a lattice; radii that distances hit exactly
MC_SCENARIO ("space", 0, 0)
{
    static const std::vector<double> R {0.5, 1, 1.5, 2, 3};
    const double r = mc::choose_from (R);
    const int n = 1 + mc::choose (mc::thorough () ? 3 : 2);
    Points p;
    for (int k = 0; k < n; ++k)
    {
        const int m = n <= 2 ? 4 : 3;
        const int x = mc::choose (m), y = mc::choose (m), z = mc::choose (m);
        p.push_back (pt (x - 1, y - 1, z - 1));
    }
    check_all (p, r);
}
// Exact distances that are not along an axis: 3 from 1 2 2, 5 from 0 3 4, 7 from 2 3 6, and their neighbours
MC_SCENARIO ("diagonal", 0, 0)
{
    static const int V[][3] = {{1, 2, 2}, {0, 3, 4}, {2, 3, 6}};
    const int v = mc::choose (3), perm = mc::choose (6), signs = mc::choose (8);
    static const int PM[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    const double r = v == 0 ? 3 : v == 1 ? 5 : 7, scale = mc::choose_from (std::vector<double> {1, 0.25, 1024});
    double d[3];
    for (int k = 0; k < 3; ++k) d[k] = V[v][PM[perm][k]] * (signs >> k & 1 ? -1 : 1);
    static const std::vector<double> O {0, 2, -2.5};
    const double ox = mc::choose_from (O), oy = mc::choose_from (O), oz = mc::choose_from (O);
    const double eps = 1.0 / 1024;
    const int k = mc::choose (4); // on the sphere, or just outside or inside along one axis
    for (double e : {0.0, eps, -eps})
    {
        double q[3] = {ox + d[0], oy + d[1], oz + d[2]};
        if (k < 3) q[k] += e; else for (double &x : q) x += e;
        check_all ({pt (ox * scale, oy * scale, oz * scale), pt (q[0] * scale, q[1] * scale, q[2] * scale)}, r * scale);
    }
}
// The query in the middle of a 3x3x3 (5x5x5) block of cells and one point anywhere in it: no cell is forgotten
MC_SCENARIO ("cells", 0, 0)
{
    const int m = 5;
    const double x = (mc::choose (2 * m) - m) * 0.5 + 0.25, y = (mc::choose (2 * m) - m) * 0.5 + 0.25, z = (mc::choose (2 * m) - m) * 0.5 + 0.25;
    static const std::vector<double> R {1, 2, 4};
    const double r = mc::choose_from (R);
    const P corner = pt (-4, -4, -4);
    const P q = pt (mc::choose (2) * 0.5, mc::choose (2) * 0.5, mc::choose (2) * 0.5);
    check_all ({q, pt (x, y, z), corner}, r);
    check_all ({pt (x, y, z), q}, r);
}
// Queries and neighbors are different lists of indexes, with repetitions and in any order
MC_SCENARIO ("index-lists", 0, 0)
{
    static const std::vector<std::vector<double>> X {{0, 0.5, 1.5, 4}, {3, 1, 0, 1}, {0, 0, 0, 0}, {-2, -1, 1, 2}};
    const auto &xs = mc::choose_from (X);
    Points p; for (double x : xs) p.push_back (pt (x, -x, 1));
    static const std::vector<double> R {0.5, 1.5, 8};
    const double r = mc::choose_from (R);
    const int m = mc::thorough () ? 4 : 3;
    Idx pi (mc::choose (m)), ni (mc::choose (m + 1));
    for (auto &i : pi) i = mc::choose (4);
    for (auto &i : ni) i = mc::choose (4);
    for (long lim : {-1l, 0l, 1l, 2l, 3l, 4l, 5l}) check (FULL, p, pi, ni, r, lim);
    check (INDEXES, p, ni, ni, r, -1); check (INDEXES, p, ni, ni, r, 1);
    check (ALL_NEIGHBORS, p, pi, ni, r, NOLIMIT); check (ALL_NEIGHBORS, p, pi, ni, r, 2);
}
// Piles of coincident points around the default limit, in one cell or spread over two
MC_SCENARIO ("limit", 0, 0)
{
    static const std::vector<int> N {1, 2, 30, 31, 32, 33, 34, 64, 130, 260};
    const int n = mc::choose_from (N), m = mc::choose_from (std::vector<int> {0, 1, 31, 32, 33});
    const double gap = mc::choose_from (std::vector<double> {0, 1, 2, 2.5});
    Points p (n, pt (0, 0, 0));
    for (int k = 0; k < m; ++k) p.push_back (pt (gap, 0, 0));
    if (mc::choose (2)) std::reverse (p.begin (), p.end ());
    const Idx a = all_of (p.size ());
    for (int k = 0; k < KINDS; ++k) check (k, p, a, a, 2, -1);
    for (long lim : {0l, 1l, 31l, 33l, (long) n - 1, (long) n, (long) n + 1, (long) (n + m) - 1, (long) (n + m), (long) NOLIMIT}) check (ALL, p, a, a, 2, lim);
    for (int k = 0; k < ALL; ++k) for (long lim : {(long) (n + m) - 1, (long) (n + m), (long) NOLIMIT}) check (k, p, a, a, 2, lim);
}
// How the candidates are spread over the cells around the query: none is lost and none is found twice
MC_SCENARIO ("spread", 0, 0)
{
    // every distribution of a few points over nine cells
    const int n = mc::choose (mc::thorough () ? 7 : 6);
    Points p {pt (0.5, 0.5, 0)};
    int cell = 0;
    for (int k = 0; k < n; ++k) { cell += mc::choose (9 - cell); p.push_back (pt (cell % 3 - 0.5, cell / 3 - 0.5, 0)); }
    const double r = mc::choose_from (std::vector<double> {1, 2});
    const Idx a = all_of (p.size ());
    for (long lim : {1l, 2l, 3l, 4l, (long) NOLIMIT}) check (ALL, p, a, a, r, lim);
}
// Clusters far apart, so that cell numbers are large or collide when hashed
MC_SCENARIO ("far", 0, 0)
{
    static const std::vector<double> D {0, 1, 2, 65536, 65537, 4294967296.0, 1099511627776.0, -65536, -4294967296.0};
    const auto pick = [] { return mc::choose_from (D); };
    const double a[3] = {pick (), pick (), pick ()};
    const int axis = mc::choose (3); const double b = mc::choose_from (D);
    Points p {pt (0, 0, 0), pt (a[0], a[1], a[2]), pt (a[0] + 0.5, a[1], a[2])};
    double c[3] = {a[0], a[1], a[2]}; c[axis] += b;
    p.push_back (pt (c[0], c[1], c[2]));
    const double r = mc::choose_from (std::vector<double> {1, 65536});
    const Idx i = all_of (4);
    check (FULL, p, i, i, r, NOLIMIT);
    check (ALL_NEIGHBORS, p, {3, 1}, {}, r, NOLIMIT);
    check (INDEXES, p, {3, 0, 1}, {}, r, NOLIMIT);
}
// Pairs of points at about the radius anywhere between the boundaries of cells, where quotients are rounded
MC_SCENARIO ("rounding", 0, 0)
{
    const int axis = mc::choose (3);
    const double lo = mc::choose (mc::is_asan ? 3 : mc::thorough () ? 120 : 30) * -0.1 + 0.0, r = (mc::choose (mc::thorough () ? 60 : 30) + 1) * 0.1;
    if (mc::is_asan && axis) mc::abandon ();
    const bool flip = axis == 1;
    Points p;
    auto add = [&] (double c) { double v[3] = {5, 5, 5}; v[axis] = flip ? c + 0.0 : c; p.push_back (pt (v[0], v[1], v[2])); };
    add (lo);
    for (int k = 1; k <= (mc::thorough () ? 40 : 20); ++k)
    {
        double c = lo + k * r;
        for (int t = 0; t < 3; ++t) c = std::nextafter (c, -1e9);
        for (int t = 0; t < 6; ++t, c = std::nextafter (c, 1e9)) if (c >= lo) add (c);
    }
    const Idx all = all_of (p.size ());
    for (int kind : {FULL, INDEXES, ALL_NEIGHBORS, ALL})
    {
        std::vector<int> calls;
        const Found f = search (kind, p, all, all, r, NOLIMIT, calls);
        for (size_t i = 0; i < p.size (); ++i)
        {
            std::vector<int> n (p.size ());
            for (size_t j : f[i]) { MC_CHECK (j < p.size () && !n[j], "duplicate", "%s names a neighbor twice", KIND[kind]); ++n[j]; }
            for (size_t j = 0; j < p.size (); ++j)
            {
                // (exact)
                const long double a = axis == 0 ? p[i].x : axis == 1 ? p[i].y : p[i].z, b = axis == 0 ? p[j].x : axis == 1 ? p[j].y : p[j].z, d = a < b ? b - a : a - b;
                if (d <= r) MC_CHECK (n[j], "missing-neighbor", "%s: the smallest coordinate is %.17g, radius %.17g: %.17g is not found as a neighbor of %.17g", KIND[kind], lo, r, (double) b, (double) a);
                // (the distance may be rounded)
                if (d > r * (1 + 1e-15L * 8)) MC_CHECK (!n[j], "invalid-neighbor", "%s: radius %.17g: %.17g is found as a neighbor of %.17g", KIND[kind], r, (double) b, (double) a);
            }
        }
        if (mc::is_asan) break;
    }
    mc::state (mc::fmt ("%d %g %g", axis, lo, r)); mc::validated ();
}
// Many queries and many points: every one of them is served
MC_SCENARIO ("many", 0, 0)
{
    if (mc::is_asan) mc::abandon ();
    static const std::vector<size_t> N {1001, 5003};
    const size_t n = mc::choose_from (N);
    const int kind = mc::choose (KINDS), limit = mc::choose (2);
    Points p;
    for (size_t k = 0; k < n; ++k) { const uint64_t h = k * 7919 % n; p.push_back (pt (h % 23 * 0.5, h / 23 % 19 * 0.5, h / 437 * 0.25)); }
    Idx q, c; for (size_t k = 0; k < n; ++k) { if (k % 3) q.push_back (n - 1 - k); if (k % 5) c.push_back (k); }
    check (kind, p, q, kind == FULL ? c : q, 0.5, kind == GET ? -1 : limit ? 3 : NOLIMIT);
}
// Many points within the radius of each other: all of them are reported
MC_SCENARIO ("dense", 0, 0)
{
    if (mc::is_asan) mc::abandon ();
    static const std::vector<size_t> N {33, 65, 129, 257, 1025, 4099};
    const size_t n = mc::choose_from (N);
    const int shape = mc::choose (4), kind = mc::choose (ALL);
    static const std::vector<double> R {0.25, 1, 2};
    Points p;
    for (size_t k = 0; k < n; ++k)
        p.push_back (shape == 0 ? pt (1, 2, 3) : shape == 1 ? pt (k % 2 * 0.25, 0, 0) : shape == 2 ? pt (k % 5 * 0.5, k % 3 * 0.5, k % 2) : pt (k % 16 * 0.0625, k / 16 % 16 * 0.0625, k / 256 * 0.0625));
    Idx q; for (size_t k = 0; k < n; k += 1 + n / 8) q.push_back (k);
    if (kind == INDEXES) q = all_of (std::min<size_t> (n, 1025));
    check (kind, p, q, all_of (n), mc::choose_from (R), mc::choose (2) ? (long) (n - 1 - mc::choose (2)) : NOLIMIT);
}
// Point records as points, and no points at all
MC_SCENARIO ("records", 0, 0)
{
    const int n = mc::choose (4);
    Points p; spoc::point_record::point_records q;
    for (int k = 0; k < n; ++k)
    {
        const P a = pt (mc::choose (3), mc::choose (2), -mc::choose (2));
        p.push_back (a);
        spoc::point_record::point_record r; r.x = a.x; r.y = a.y; r.z = a.z; r.c = k; q.push_back (r);
    }
    const double r = mc::choose_from (std::vector<double> {0.5, 1, 2});
    const Idx a = all_of (p.size ());
    for (int k = 0; k < KINDS; ++k) { check (k, p, q, a, a, r, -1); check (k, p, p, a, a, r, -1); }
}
MC_MAIN
