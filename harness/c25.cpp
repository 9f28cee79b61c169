// C25: rescaling into an extent keeps order, fills the integer range, and is undone by restoring
#include "glue.h"
#include "spoc/extent.h"
#include "spoc/point.h"
#include <cmath>
using namespace model;
using P = spoc::point::point<double>;
using Q = spoc::point::point<uint64_t>;
using E = spoc::extent::extent;
namespace X = spoc::extent;
static P pt (double x, double y, double z) { P p; p.x = x; p.y = y; p.z = z; return p; }
static std::string sh (const P &p) { return mc::fmt ("(%.17g %.17g %.17g)", p.x, p.y, p.z); }
static std::string sh (const Q &p) { return mc::fmt ("(%llu %llu %llu)", (unsigned long long) p.x, (unsigned long long) p.y, (unsigned long long) p.z); }
static const uint64_t FULL = 1ull << 62;
static double coord (const P &p, int a) { return a == 0 ? p.x : a == 1 ? p.y : p.z; }
static uint64_t coord (const Q &p, int a) { return a == 0 ? p.x : a == 1 ? p.y : p.z; }

// The laws for one axis of one point
static void axis (double v, double lo, double hi, uint64_t q, double back, const std::string &s)
{
    MC_CHECK (q <= FULL, "range", "%s: %llu is above 2^62", s.c_str (), (unsigned long long) q);
    if (lo == hi) { MC_CHECK (back == lo, "flat", "%s: restored to %.17g", s.c_str (), back); return; }
    if (v == lo) MC_CHECK (q == 0 && back == lo, "minimum", "%s: %llu, restored to %.17g", s.c_str (), (unsigned long long) q, back);
    if (v == hi) MC_CHECK (q == FULL, "maximum", "%s: %llu instead of 2^62", s.c_str (), (unsigned long long) q);
    // The share of the size, up to rounding
    const long double want = ((long double) v - lo) / ((long double) hi - lo) * 4611686018427387904.0L;
    MC_CHECK (fabsl ((long double) q - want) <= 4611686018427387904.0L * 4e-16L + 1, "scaled", "%s: %llu instead of %.0Lf", s.c_str (), (unsigned long long) q, want);
    const long double eps = 1e-15L * ((long double) hi - lo) + 2.3e-16L * fmaxl (fabsl (lo), fabsl (hi));
    MC_CHECK (fabsl ((long double) back - v) <= eps, "restored", "%s: restored to %.17g", s.c_str (), back);
}
static void laws (const std::vector<P> &v, const E &e)
{
    const std::vector<P> v0 = v; const E e0 = e;
    const auto q = X::rescale (v, e);
    const auto r = X::restore (q, e);
    MC_CHECK (q.size () == v.size () && r.size () == v.size (), "count", "%zu and %zu points of %zu", q.size (), r.size (), v.size ());
    for (size_t k = 0; k < v.size (); ++k)
    {
        const std::string s = mc::fmt ("point %zu of %zu: ", k, v.size ()) + sh (v[k]) + " in " + sh (e.minp) + " " + sh (e.maxp) + " -> " + sh (q[k]);
        mc::note (s);
        for (int a = 0; a < 3; ++a) axis (coord (v[k], a), coord (e.minp, a), coord (e.maxp, a), coord (q[k], a), coord (r[k], a), s);
        // One by one, as all at once
        const P size = e.maxp - e.minp;
        const Q q1 = X::rescale (v[k], size, e.minp);
        const P r1 = X::restore (q[k], size, e.minp);
        MC_CHECK (q1 == q[k], "single", "%s, alone %s", s.c_str (), sh (q1).c_str ());
        MC_CHECK (r1 == r[k], "single-restored", "%s, alone %s instead of %s", s.c_str (), sh (r1).c_str (), sh (r[k]).c_str ());
        // Order
        for (size_t j = 0; j < v.size (); ++j)
            for (int a = 0; a < 3; ++a)
            {
                if (coord (v[j], a) <= coord (v[k], a)) MC_CHECK (coord (q[j], a) <= coord (q[k], a), "order", "%s: above point %zu", s.c_str (), j);
                if (coord (q[j], a) <= coord (q[k], a)) MC_CHECK (coord (r[j], a) <= coord (r[k], a), "order-restored", "%s: above point %zu", s.c_str (), j);
            }
        mc::step (4);
        mc::state (s);
    }
    MC_CHECK (v == v0 && e == e0, "arguments", "the arguments changed");
    mc::validated (v.size ());
}
// One axis at a time: every point of a grid of every extent of a set, the other axes fixed
struct Ext { double lo, hi; };
static const std::vector<Ext> &exts ()
{
    static const std::vector<Ext> v {{0, 1}, {0, 4}, {-1, 1}, {-8, -4}, {0, 3}, {0.1, 0.7}, {1000000, 1000000.5}, {-500, 500}, {1e-9, 3e-9}, {-1e15, 1e15}, {1e15, 1e15 + 2}, {4e5, 4.1e5}, {0, 1e-300}, {0, 1e-304}, {-2e-303, 1e-304}, {-1e280, 1e280}, {5, 5}, {0, 0}, {-7.25, -7.25}, {1e300, 1e300}};
    return v;
}
static std::vector<double> places (const Ext &x, int n)
{
    std::vector<double> v {x.lo, x.hi};
    if (x.lo == x.hi) return {x.lo};
    for (int k = 1; k < n; ++k) { const double d = x.lo + (x.hi - x.lo) * k / n; if (d > x.lo && d < x.hi) v.push_back (d); }
    for (double d : {std::nextafter (x.lo, x.hi), std::nextafter (x.hi, x.lo)}) if (d > x.lo && d < x.hi) v.push_back (d);
    return v;
}
MC_SCENARIO ("axes", 0, 0)
{
    const int a = mc::choose (3);
    const Ext x = mc::choose_from (exts ()), y = mc::choose_from (exts ());
    const auto V = places (x, mc::thorough () ? 64 : 16);
    auto put = [&] (double u, double w) { return a == 0 ? pt (u, w, y.lo) : a == 1 ? pt (w, u, y.lo) : pt (w, y.lo, u); };
    E e; e.minp = put (x.lo, y.lo); e.maxp = a == 0 ? pt (x.hi, y.hi, y.hi) : a == 1 ? pt (y.hi, x.hi, y.hi) : pt (y.hi, y.hi, x.hi);
    std::vector<P> v; for (size_t k = 0; k < V.size (); ++k) v.push_back (put (V[k], k % 2 ? y.hi : y.lo));
    laws (v, e);
}
// All lattice points of dyadic boxes, where the arithmetic is exact
MC_SCENARIO ("exact", 0, 0)
{
    static const std::vector<double> S {1, 2, 8, 0.25}, M {0, -4, 100};
    const double s[3] = {mc::choose_from (S), mc::choose_from (S), mc::choose_from (S)}, m[3] = {mc::choose_from (M), mc::choose_from (M), mc::choose_from (M)};
    E e; e.minp = pt (m[0], m[1], m[2]); e.maxp = pt (m[0] + s[0], m[1] + s[1], m[2] + s[2]);
    std::vector<P> v;
    for (int i = 0; i <= 4; ++i) for (int j = 0; j <= 4; ++j) for (int k = 0; k <= 4; ++k)
        v.push_back (pt (m[0] + s[0] * i / 4, m[1] + s[1] * j / 4, m[2] + s[2] * k / 4));
    const auto q = X::rescale (v, e); const auto r = X::restore (q, e);
    MC_CHECK (q.size () == v.size () && r == v, "exact-restored", "box at %s: not restored", sh (e.minp).c_str ());
    size_t n = 0;
    for (uint64_t i = 0; i <= 4; ++i) for (uint64_t j = 0; j <= 4; ++j) for (uint64_t k = 0; k <= 4; ++k, ++n)
        MC_CHECK (q[n].x == i * (FULL / 4) && q[n].y == j * (FULL / 4) && q[n].z == k * (FULL / 4), "exact-scaled", "%s -> %s", sh (v[n]).c_str (), sh (q[n]).c_str ());
    mc::step (2 * v.size ()); mc::state (sh (e.minp) + sh (e.maxp)); mc::validated (2);
}
// The extent of the cloud itself, as callers use it; every number of points
MC_SCENARIO ("clouds", 0, 0)
{
    static const std::vector<double> V {-3, 0.1, 7};
    const int n = mc::choose (4);
    std::vector<P> v;
    for (int k = 0; k < n; ++k) v.push_back (pt (mc::choose_from (V), mc::choose_from (V), mc::choose_from (V)));
    if (v.empty ()) { E e; e.minp = pt (0, 0, 0); e.maxp = pt (1, 1, 1); MC_CHECK (X::rescale (v, e).empty () && X::restore (std::vector<Q> (), e).empty (), "empty", "points out of nothing"); mc::step (); mc::state (1); mc::validated (); return; }
    laws (v, X::get_extent (v));
}
MC_SCENARIO ("counts", 0, 0)
{
    static const std::vector<int> N {1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 31, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300};
    const int n = mc::choose_from (N);
    std::vector<P> v; for (int k = 0; k < n; ++k) v.push_back (pt ((k * 37) % 101, -k, (k * k) % 17 * 0.1));
    E e; e.minp = pt (0, -300, 0); e.maxp = pt (101, 0, 2);
    laws (v, e);
}
// Area and volume of boxes
MC_SCENARIO ("sizes", 0, 0)
{
    static const std::vector<double> V {-4, -0.5, 0, 3, 1e6};
    double c[6]; for (auto &x : c) x = mc::choose_from (V);
    E e; e.minp = pt (std::min (c[0], c[1]), std::min (c[2], c[3]), std::min (c[4], c[5])); e.maxp = pt (std::max (c[0], c[1]), std::max (c[2], c[3]), std::max (c[4], c[5]));
    const double w = e.maxp.x - e.minp.x, h = e.maxp.y - e.minp.y, d = e.maxp.z - e.minp.z;
    MC_CHECK (X::get_area (e) == w * h, "area", "%s %s: %.17g", sh (e.minp).c_str (), sh (e.maxp).c_str (), X::get_area (e));
    MC_CHECK (std::abs (X::get_volume (e) - w * h * d) <= 1e-15 * w * h * d, "volume", "%s %s: %.17g", sh (e.minp).c_str (), sh (e.maxp).c_str (), X::get_volume (e));
    mc::step (2); mc::state (sh (e.minp) + sh (e.maxp)); mc::validated ();
}
// Comparison to a number of decimals: equal exactly when the coordinates differ by less than half a unit
MC_SCENARIO ("about-equal", 0, 0)
{
    static const std::vector<double> D {0, 0.25, 0.45, 0.55, 0.75, 1, 2, 100, 1e6};
    const unsigned prec = mc::choose (10);
    const double unit = std::pow (10.0, -(double) prec);
    const P a = pt (0.5, -1, 0);
    const double dx = mc::choose_from (D), dy = mc::choose_from (D), dz = mc::choose_from (D);
    for (int s = 0; s < 8; ++s)
    {
        const P b = pt (a.x + (s & 1 ? -dx : dx) * unit, a.y + (s & 2 ? -dy : dy) * unit, a.z + (s & 4 ? -dz : dz) * unit);
        const bool want = dx < 0.5 && dy < 0.5 && dz < 0.5;
        const std::string t = sh (a) + " " + sh (b) + mc::fmt (" to %u decimals", prec);
        MC_CHECK (spoc::point::about_equal (a, b, prec) == want && spoc::point::about_equal (b, a, prec) == want, "about-equal", "%s: expected %d", t.c_str (), want);
        for (size_t n = 1; n < 4; ++n)
            for (size_t k = 0; k < n; ++k)
            {
                std::vector<P> u (n, a), v (n, a); v[k] = b;
                MC_CHECK (spoc::point::about_equal (u, v, prec) == want && spoc::point::about_equal (v, u, prec) == want, "about-equal-list", "%s, point %zu of %zu: expected %d", t.c_str (), k, n, want);
            }
        mc::step (14);
    }
    mc::state (mc::fmt ("%u %g %g %g", prec, dx, dy, dz)); mc::validated ();
}
MC_MAIN
