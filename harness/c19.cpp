// C19: geometric and record primitives obey their algebraic laws
#include "glue.h"
using namespace model;
using P = spoc::point::point<double>;
using glue::to_spoc;
using spoc::point_record::point_record;

static P pt (double x, double y, double z) { P p; p.x = x; p.y = y; p.z = z; return p; }
static std::string sh (const P &p) { return mc::fmt ("(%.17g %.17g %.17g)", p.x, p.y, p.z); }
static const double inf = 1.0 / 0.0;
static const std::vector<double> &ordered () // without NaN
{
    static const std::vector<double> s {-inf, -1e300, -1, from_bits (0x8000000000000001ull), -0.0, 0.0, from_bits (1), 0.5, 1, from_bits (0x3ff0000000000001ull), 1e300, inf};
    return s;
}
static const std::vector<double> &few () { static const std::vector<double> s {-1, -0.0, 0.0, from_bits (1), 1, inf}; return s; }

// ---- points ----
MC_SCENARIO ("point-pairs", 0, 0)
{
    const auto &V = mc::thorough () ? ordered () : few ();
    const P a = pt (mc::choose_from (V), mc::choose_from (V), mc::choose_from (V));
    for (double x : V) for (double y : V) for (double z : V)
    {
        const P b = pt (x, y, z);
        const bool eq = a.x == b.x && a.y == b.y && a.z == b.z;
        const bool lt = a.x < b.x || (a.x == b.x && (a.y < b.y || (a.y == b.y && a.z < b.z)));
        const std::string s = sh (a) + " " + sh (b);
        MC_CHECK ((a == b) == eq, "point-eq", "%s: == is %d", s.c_str (), a == b);
        MC_CHECK ((a != b) == !eq, "point-ne", "%s: != is %d", s.c_str (), a != b);
        MC_CHECK ((a < b) == lt, "point-lt", "%s: < is %d", s.c_str (), a < b);
        MC_CHECK (!(a < b && b < a), "point-asymmetric", "%s: both orders hold", s.c_str ());
        MC_CHECK (!(a < a), "point-irreflexive", "%s: less than itself", sh (a).c_str ());
        MC_CHECK (((a < b) || (b < a) || (a == b)), "point-total", "%s: neither less nor equal", s.c_str ());
        const spoc::point::point_hash<double> h;
        if (eq) MC_CHECK (h (a) == h (b), "point-hash", "%s: equal with different hashes", s.c_str ());
        mc::step (6);
    }
    mc::state (sh (a)); mc::validated ();
}
MC_SCENARIO ("point-transitive", 0, 0)
{
    static const std::vector<double> T {-1, 0.0, 1}, Q {-1, -0.0, 0.0, 1};
    const auto &V = mc::thorough () ? Q : T;
    const P a = pt (mc::choose_from (V), mc::choose_from (V), mc::choose_from (V));
    for (double x : V) for (double y : V) for (double z : V) for (double u : V) for (double v : V) for (double w : V)
    {
        const P b = pt (x, y, z), c = pt (u, v, w);
        if (a < b && b < c) MC_CHECK (a < c, "transitive", "%s %s %s", sh (a).c_str (), sh (b).c_str (), sh (c).c_str ());
        if (a == b) MC_CHECK ((a < c) == (b < c) && (c < a) == (c < b), "consistent", "%s %s %s: order of equal points differs", sh (a).c_str (), sh (b).c_str (), sh (c).c_str ());
        mc::step ();
    }
    mc::state (sh (a)); mc::validated ();
}
// Integer points too
MC_SCENARIO ("int-points", 0, 0)
{
    using I = spoc::point::point<int>;
    static const std::vector<int> V {-2147483647 - 1, -1, 0, 1, 2147483647};
    I a; a.x = mc::choose_from (V); a.y = mc::choose_from (V); a.z = mc::choose_from (V);
    for (int x : V) for (int y : V) for (int z : V)
    {
        I b; b.x = x; b.y = y; b.z = z;
        const bool eq = a.x == x && a.y == y && a.z == z;
        const bool lt = std::make_tuple (a.x, a.y, a.z) < std::make_tuple (x, y, z);
        MC_CHECK ((a == b) == eq && (a != b) == !eq && (a < b) == lt, "int-point", "(%d %d %d) (%d %d %d)", a.x, a.y, a.z, x, y, z);
        const spoc::point::point_hash<int> h;
        if (eq) MC_CHECK (h (a) == h (b), "int-hash", "equal integer points with different hashes");
        mc::step (4);
    }
    mc::state (a.x * 31ull + a.y * 7ull + a.z); mc::validated ();
}
MC_SCENARIO ("point-arithmetic", 0, 0)
{
    static const std::vector<double> V {-3, -0.25, 0.0, 1, 4.5, 1e300};
    const P a = pt (mc::choose_from (V), mc::choose_from (V), mc::choose_from (V));
    for (double x : V) for (double y : V) for (double z : V)
    {
        const P b = pt (x, y, z), a0 = a;
        const P s = a + b, d = a - b;
        P e = a, f = a; e += b; f -= b;
        const std::string w = sh (a) + " " + sh (b);
        MC_CHECK (bits (s.x) == bits (a.x + x) && bits (s.y) == bits (a.y + y) && bits (s.z) == bits (a.z + z), "add", "%s", w.c_str ());
        MC_CHECK (bits (d.x) == bits (a.x - x) && bits (d.y) == bits (a.y - y) && bits (d.z) == bits (a.z - z), "subtract", "%s", w.c_str ());
        MC_CHECK (e == s && f == d && a == a0, "in-place", "%s", w.c_str ());
        const double D = spoc::point::distance (a, b), E = spoc::point::distance (b, a);
        MC_CHECK (bits (D) == bits (E) || (D != D && E != E), "distance-symmetric", "%s: %g %g", w.c_str (), D, E);
        const long double q = sqrtl ((long double) d.x * d.x + (long double) d.y * d.y + (long double) d.z * d.z);
        if (std::abs (d.x) < 1e100 && std::abs (d.y) < 1e100 && std::abs (d.z) < 1e100)
            MC_CHECK (fabsl (D - q) <= 1e-12L * (1 + q), "distance", "%s: %.17g", w.c_str (), D);
        MC_CHECK (spoc::point::distance (a, a) == 0, "distance-zero", "%s", sh (a).c_str ());
        mc::step (6);
    }
    mc::state (sh (a)); mc::validated ();
}
// Points of another type than double
template<typename T> static void other_type (const std::vector<T> &values, const char *name)
{
    const size_t n = 1 + mc::choose (4);
    std::vector<spoc::point::point<T>> v (n);
    for (size_t k = 0; k < n; ++k) { v[k].x = values[(k * 3) % values.size ()]; v[k].y = values[(k * 3 + 1) % values.size ()]; v[k].z = mc::choose_from (values); }
    const auto bytes = spoc::point::encode_points (v);
    const auto w = spoc::point::decode_points<T> (bytes);
    MC_CHECK (bytes.size () == 3 * sizeof (T) * n && w.size () == n, "encode-points", "%zu points of type %s", n, name);
    for (size_t k = 0; k < n; ++k) MC_CHECK (memcmp (&v[k], &w[k], 3 * sizeof (T)) == 0 && memcmp (&bytes[3 * sizeof (T) * k], &v[k], 3 * sizeof (T)) == 0, "decode-points", "point %zu of %zu of type %s", k, n, name);
    mc::step (); mc::state (std::string (bytes.begin (), bytes.end ())); mc::validated ();
}
MC_SCENARIO ("encoding-types", 0, 0)
{
    switch (mc::choose (4))
    {
        case 0: other_type<float> ({0.5f, -3e30f, 1e-40f}, "float"); break;
        case 1: other_type<uint64_t> ({1, UINT64_MAX, 1ull << 63}, "uint64_t"); break;
        case 2: other_type<int16_t> ({-1, 300, -32768}, "int16_t"); break;
        default: other_type<uint8_t> ({1, 255, 128}, "uint8_t"); break;
    }
}
MC_SCENARIO ("encoding", 0, 0)
{
    const auto &V = all_doubles ();
    const P a = pt (mc::choose_from (V), mc::choose_from (V), mc::choose_from (V));
    auto same = [] (const P &a, const P &b) { return bits (a.x) == bits (b.x) && bits (a.y) == bits (b.y) && bits (a.z) == bits (b.z); };
    std::string want; put_le<uint64_t> (want, bits (a.x)); put_le<uint64_t> (want, bits (a.y)); put_le<uint64_t> (want, bits (a.z));
    const auto e = spoc::point::encode_point (a);
    MC_CHECK (std::string (e.begin (), e.end ()) == want, "encode", "%s: other bytes", sh (a).c_str ());
    MC_CHECK (same (spoc::point::decode_point (e), a), "decode", "%s", sh (a).c_str ());
    const P b = pt (1, V[mc::is_asan ? 2 : 4], a.x);
    spoc::extent::extent x; x.minp = a; x.maxp = b;
    const auto y = spoc::extent::decode_extent (spoc::extent::encode_extent (x));
    MC_CHECK (same (y.minp, a) && same (y.maxp, b), "extent", "%s", sh (a).c_str ());
    if (a.x == a.x && a.y == a.y && a.z == a.z) MC_CHECK (x == y, "extent-eq", "%s", sh (a).c_str ());
    spoc::extent::extent z = x; z.maxp.y = 77;
    MC_CHECK (!(x == z), "extent-eq", "different extents are equal");
    for (size_t n = 1; n < 5; ++n)
    {
        std::vector<P> v; for (size_t k = 0; k < n; ++k) v.push_back (k % 2 ? b : a);
        const auto bytes = spoc::point::encode_points (v);
        const auto w = spoc::point::decode_points<double> (bytes);
        MC_CHECK (bytes.size () == 24 * n && w.size () == n, "encode-points", "%zu points", n);
        for (size_t k = 0; k < n; ++k) MC_CHECK (same (v[k], w[k]), "decode-points", "point %zu of %zu", k, n);
    }
    mc::step (10); mc::state (sh (a)); mc::validated ();
}
// ---- records ----
static void pair_of_records (const Rec &a, const Rec &b)
{
    bool eq = a.x == b.x && a.y == b.y && a.z == b.z && a.e == b.e;
    for (int f = 3; f < 9; ++f) eq = eq && get_int (a, f) == get_int (b, f);
    const point_record p = to_spoc (a), q = to_spoc (b);
    const std::string s = show (a) + " " + show (b);
    MC_CHECK ((p == q) == eq, "record-eq", "%s: == is %d", s.c_str (), p == q);
    MC_CHECK ((p != q) == !eq, "record-ne", "%s: != is %d", s.c_str (), p != q);
    MC_CHECK ((q == p) == eq, "record-symmetric", "%s", s.c_str ());
    const spoc::point_record::point_record_hash h;
    if (eq) MC_CHECK (h (p) == h (q), "record-hash", "%s: equal with different hashes", s.c_str ());
    MC_CHECK (h (p) == h (point_record (p)), "record-hash", "%s: the hash of a copy differs", s.c_str ());
    mc::step (5);
}
static const std::vector<double> &dvals () { static const std::vector<double> v {0.0, -0.0, 1, -1, 1e300, inf, from_bits (1), 4294967296.0, from_bits (0x3ff0000000000001ull)}; return v; }
// Two records that differ in at most two cells
MC_SCENARIO ("record-pairs", 2, 2)
{
    const int extra = mc::choose (mc::thorough () ? 6 : 4);
    const int pattern = mc::choose (2);
    const Rec a = pattern_rec (3, extra, pattern);
    Rec b = a;
    for (int f = 0; f < 9 + extra; ++f)
    {
        if (f < 3) { const int k = mc::dev ((int) dvals ().size () + 1); if (k) coord (b, f) = dvals ()[k - 1]; }
        else { const auto &I = ints_of (f); const int k = mc::dev ((int) I.size () + 1); if (k) set_int (b, f, I[k - 1]); }
    }
    pair_of_records (a, b);
    mc::state (rec_bytes (b)); mc::validated ();
}
// Any two values of any one field
MC_SCENARIO ("record-values", 0, 0)
{
    const int f = mc::choose (12);
    Rec a = pattern_rec (1, 3, 1), b = a;
    if (f < 3) { coord (a, f) = mc::choose_from (dvals ()); coord (b, f) = mc::choose_from (dvals ()); }
    else { const auto &I = ints_of (f); set_int (a, f, mc::choose_from (I)); set_int (b, f, mc::choose_from (I)); }
    pair_of_records (a, b);
    mc::state (rec_bytes (a) + rec_bytes (b)); mc::validated ();
}
// Any single bit of any integer field
MC_SCENARIO ("record-bits", 0, 0)
{
    const int extra = 1 + mc::choose (3);
    const int f = 3 + mc::choose (6 + extra);
    const int bit = mc::choose (bits_of (f));
    Rec a = pattern_rec (5, extra, 1 + mc::choose (2)), b = a;
    if (!(a.x == a.x && a.y == a.y && a.z == a.z)) { a.x = a.y = a.z = 1; b = a; }
    set_int (b, f, get_int (b, f) ^ (1ull << bit));
    pair_of_records (a, b);
    mc::state (rec_bytes (b)); mc::validated ();
}
MC_SCENARIO ("record-extras", 0, 0)
{
    const int n = mc::choose (5), m = mc::choose (5);
    Rec a = pattern_rec (1, n, 1), b = pattern_rec (1, m, 1);
    for (auto &u : a.e) u = mc::choose (2);
    for (auto &u : b.e) u = mc::choose (2);
    pair_of_records (a, b);
    mc::state (rec_bytes (a) + "/" + rec_bytes (b)); mc::validated ();
}
// Headers: any two differing members, in any position of the signature and the WKT
static spoc::header::header some_header (int at, int v)
{
    spoc::header::header h ("WKT text", 7, 300, false);
    switch (at)
    {
        case 0: case 1: case 2: case 3: h.signature[at] ^= 1 << v; break;
        case 4: h.major_version += 1 + 85 * v; break;
        case 5: h.minor_version += 1 + 85 * v; break;
        case 6: h.wkt = v == 0 ? "" : v == 1 ? "WKT tex" : "WKT text "; break;
        case 7: h.wkt[4 * (v % 2)] = v == 2 ? '\0' : 'w'; break;
        case 8: h.extra_fields = v == 0 ? 0 : v == 1 ? 255 : 6; break;
        case 9: h.total_points = v == 0 ? 0 : v == 1 ? 300 + (1ull << 32) : 301; break;
        case 10: h.compressed = 1 + v; break;
    }
    return h;
}
MC_SCENARIO ("header-pairs", 0, 0)
{
    const int a = mc::choose (12), va = a < 11 ? mc::choose (3) : 0, b = mc::choose (12), vb = b < 11 ? mc::choose (3) : 0;
    const auto h = some_header (a, va), g = some_header (b, vb);
    bool eq = h.major_version == g.major_version && h.minor_version == g.minor_version && std::string (h.wkt) == g.wkt
        && h.extra_fields == g.extra_fields && h.total_points == g.total_points && h.compressed == g.compressed;
    for (int k = 0; k < 4; ++k) eq = eq && h.signature[k] == g.signature[k];
    const std::string s = mc::fmt ("headers with change %d/%d and %d/%d", a, va, b, vb);
    // (flags other than 0 and 1 need not be told apart)
    if (h.compressed != g.compressed && h.compressed && g.compressed) mc::abandon ();
    MC_CHECK ((h == g) == eq, "header-eq", "%s: == is %d", s.c_str (), h == g);
    MC_CHECK ((h != g) == !eq, "header-ne", "%s: != is %d", s.c_str (), h != g);
    bool sig = true; for (int k = 0; k < 4; ++k) sig = sig && h.signature[k] == "SPOC"[k];
    MC_CHECK (h.check_signature () == sig, "header-signature", "%s: check_signature is %d", s.c_str (), h.check_signature ());
    std::ostringstream o;
    const bool err = glue::throws ([&] { spoc::header::write_header (o, h); });
    MC_CHECK (err == !sig, "header-write", "%s: writing a header %s signature %s", s.c_str (), sig ? "with its" : "without a valid", err ? "fails" : "works");
    mc::step (4); mc::state (s); mc::validated ();
}
// Columns and all-zero tests
MC_SCENARIO ("columns", 0, 0)
{
    const size_t n = mc::choose (4);
    const size_t extra = mc::choose (3);
    Cloud c = make (n, extra, "", false, 0);
    const int cells = (int) (n * (9 + extra));
    const int at = mc::choose (cells + 1), at2 = mc::choose (cells + 1); // the cells that are not zero
    auto poke = [&] (int at, uint64_t v) {
        if (at >= cells) return;
        Rec &r = c.v[at / (9 + extra)]; const int f = at % (9 + extra);
        if (f < 3) coord (r, f) = v; else set_int (r, f, v);
    };
    poke (at, 1); poke (at2, 0x8000);
    const auto p = to_spoc (c.v);
    namespace R = spoc::point_record;
    bool zero[16]; for (int f = 0; f < 16; ++f) zero[f] = true;
    for (size_t k = 0; k < n; ++k)
    {
        const Rec &r = c.v[k];
        for (size_t f = 3; f < 9 + extra; ++f) zero[f] = zero[f] && get_int (r, f) == 0;
        MC_CHECK (R::get_x (p)[k] == r.x && R::get_y (p)[k] == r.y && R::get_z (p)[k] == r.z && R::get_c (p)[k] == r.c && R::get_p (p)[k] == r.p && R::get_i (p)[k] == r.i
            && R::get_r (p)[k] == r.r && R::get_g (p)[k] == r.g && R::get_b (p)[k] == r.b, "column", "%s: column value %zu", show (c).c_str (), k);
        for (size_t j = 0; j < extra; ++j) MC_CHECK (R::get_extra (j, p)[k] == r.e[j], "column", "%s: extra column %zu value %zu", show (c).c_str (), j, k);
    }
    MC_CHECK (R::get_x (p).size () == n && R::get_b (p).size () == n, "column-size", "%zu records", n);
    MC_CHECK (R::get_extra_fields_size (p) == (n ? extra : 0), "extra-size", "%zu records, %zu extras", n, extra);
    MC_CHECK (R::has_all_zero_c (p) == zero[3] && R::has_all_zero_p (p) == zero[4] && R::has_all_zero_i (p) == zero[5] && R::has_all_zero_r (p) == zero[6] && R::has_all_zero_g (p) == zero[7] && R::has_all_zero_b (p) == zero[8], "all-zero", "%s", show (c).c_str ());
    MC_CHECK (R::has_all_zero_rgb (p) == (zero[6] && zero[7] && zero[8]), "all-zero-rgb", "%s", show (c).c_str ());
    if (n) for (size_t j = 0; j < extra; ++j) MC_CHECK (R::has_all_zero_extra (j, p) == zero[9 + j], "all-zero-extra", "%s", show (c).c_str ());
    mc::step (20); mc::state (hash (c)); mc::validated ();
}
// ---- clouds of points ----
template<typename T> static T item (double x, double y, double z) { T t; t.x = x; t.y = y; t.z = z; return t; }
template<typename T> static void cloud_laws (const std::vector<T> &v, const std::string &s)
{
    double lo[3] = {inf, inf, inf}, hi[3] = {-inf, -inf, -inf};
    long double sum[3] = {0, 0, 0}, mag[3] = {0, 0, 0};
    for (auto &p : v)
    {
        const double c[3] = {p.x, p.y, p.z};
        for (int k = 0; k < 3; ++k) { if (c[k] < lo[k]) lo[k] = c[k]; if (c[k] > hi[k]) hi[k] = c[k]; sum[k] += c[k]; mag[k] += std::abs (c[k]); }
    }
    const auto e = spoc::extent::get_extent (v);
    MC_CHECK (e.minp.x == lo[0] && e.minp.y == lo[1] && e.minp.z == lo[2] && e.maxp.x == hi[0] && e.maxp.y == hi[1] && e.maxp.z == hi[2], "extent-of", "%s: extent %s %s", s.c_str (), sh (e.minp).c_str (), sh (e.maxp).c_str ());
    const double dx = hi[0] - lo[0], dy = hi[1] - lo[1], dz = hi[2] - lo[2];
    if (std::isfinite (dx * dy) && std::isfinite (dx * dy * dz) && dx < 1e9 && dy < 1e9 && dz < 1e9)
        MC_CHECK (spoc::extent::get_area (e) == dx * dy && spoc::extent::get_volume (e) == dx * dy * dz, "area", "%s: %g %g", s.c_str (), spoc::extent::get_area (e), spoc::extent::get_volume (e));
    const auto c = spoc::utils::get_center (v);
    const double cc[3] = {c.x, c.y, c.z};
    for (int k = 0; k < 3; ++k)
        if (mag[k] < 1e300L) MC_CHECK (fabsl (cc[k] - sum[k] / v.size ()) <= 1e-14L * mag[k], "center", "%s: %.17g", s.c_str (), cc[k]);
    mc::step (3);
}
MC_SCENARIO ("extents", 0, 0)
{
    static const std::vector<double> A {-1e300, -2.5, 0, 1, 3e200}, S {-2.5, 0, 1}, X {-4, 7.25};
    const int n = 1 + mc::choose (mc::thorough () ? 4 : 3);
    std::vector<P> v; std::string s;
    // one axis takes all values, the others fewer
    const int axis = mc::choose (3);
    for (int k = 0; k < n; ++k)
    {
        double c[3];
        for (int j = 0; j < 3; ++j) c[j] = j == axis ? mc::choose_from (A) : mc::choose_from (n > 2 ? X : S);
        v.push_back (pt (c[0], c[1], c[2])); s += sh (v.back ());
    }
    cloud_laws (v, s);
    std::vector<point_record> r;
    for (auto &p : v) { r.push_back (item<point_record> (p.x, p.y, p.z)); r.back ().c = 99; }
    cloud_laws (r, s);
    mc::state (s); mc::validated ();
}
MC_SCENARIO ("total-extent", 0, 0)
{
    static const std::vector<double> V {-3, 0, 2};
    auto ext = [&] { spoc::extent::extent e; double a[3], b[3]; for (int k = 0; k < 3; ++k) { static const int LO[6] = {0, 0, 0, 1, 1, 2}, HI[6] = {0, 1, 2, 1, 2, 2}; const int q = mc::choose (6); a[k] = V[LO[q]] + k * 100; b[k] = V[HI[q]] + k * 100; } e.minp = pt (a[0], a[1], a[2]); e.maxp = pt (b[0], b[1], b[2]); return e; };
    const auto a = ext (), b = ext ();
    const auto t = spoc::extent::get_total_extent (a, b), u = spoc::extent::get_total_extent (b, a);
    const P lo = pt (std::min (a.minp.x, b.minp.x), std::min (a.minp.y, b.minp.y), std::min (a.minp.z, b.minp.z));
    const P hi = pt (std::max (a.maxp.x, b.maxp.x), std::max (a.maxp.y, b.maxp.y), std::max (a.maxp.z, b.maxp.z));
    MC_CHECK (t.minp == lo && t.maxp == hi && u == t, "total-extent", "%s %s and %s %s: %s %s", sh (a.minp).c_str (), sh (a.maxp).c_str (), sh (b.minp).c_str (), sh (b.maxp).c_str (), sh (t.minp).c_str (), sh (t.maxp).c_str ());
    mc::step (2); mc::state (sh (lo) + sh (hi)); mc::validated ();
}
// Every box over a lattice against every short sequence of lattice points
MC_SCENARIO ("crop", 0, 0)
{
    static const std::vector<double> B {0, 1, 2}, V {-0.5, 0, 0.75, 1, 2, 2.25, std::nextafter (2.0, 3), -5e-324, std::nextafter (1.0, 0)};
    spoc::extent::extent e;
    const int axis = mc::choose (3); // the axis on which the box and the points vary most
    double lo[3] = {0, 0, 0}, hi[3] = {2, 2, 2};
    for (int k = 0; k < 3; ++k) if (k == axis || mc::thorough ()) { const int q = mc::choose (9); lo[k] = B[q / 3]; hi[k] = B[q % 3]; } // including empty boxes
    e.minp = pt (lo[0], lo[1], lo[2]); e.maxp = pt (hi[0], hi[1], hi[2]);
    const int n = mc::choose (mc::thorough () ? 3 : 4);
    std::vector<point_record> v, want; std::string s;
    for (int k = 0; k < n; ++k)
    {
        double c[3] = {1, 1, 1};
        c[axis] = mc::choose_from (V);
        const int o = mc::choose (3); // a second axis may be outside
        if (o) c[(axis + o) % 3] = mc::thorough () ? mc::choose_from (V) : -0.5;
        v.push_back (item<point_record> (c[0], c[1], c[2])); v.back ().p = k; v.back ().extra = {7, (uint64_t) k};
        if (c[0] >= lo[0] && c[1] >= lo[1] && c[2] >= lo[2] && c[0] <= hi[0] && c[1] <= hi[1] && c[2] <= hi[2]) want.push_back (v.back ());
        s += sh (pt (c[0], c[1], c[2]));
    }
    const auto q = spoc::utils::crop (v, e);
    MC_CHECK (q == want, "crop", "points %s, box %s %s: %zu points are kept instead of %zu, or not in order", s.c_str (), sh (e.minp).c_str (), sh (e.maxp).c_str (), q.size (), want.size ());
    mc::step (); mc::state (s + sh (e.minp) + sh (e.maxp)); mc::validated ();
}
// ---- voxels ----
static void voxel_laws (const std::vector<P> &v, double res, const std::string &s);
MC_SCENARIO ("voxels", 0, 0)
{
    static const std::vector<double> RES {0.25, 0.5, 1, 4};
    static const std::vector<double> ORG {0, -8, 1048576.5};
    const double res = mc::choose_from (RES), org = mc::choose_from (ORG);
    const int n = 1 + mc::choose (mc::thorough () ? 4 : 3);
    static const std::vector<double> V {0, 0.125, 0.25, 0.5, 0.75, 1, 1.25, 3.75, 4, 8.5}, W {0, 0.25, 1, 5};
    const int axis = mc::choose (3);
    std::vector<P> v; std::string s = mc::fmt ("res %g: ", res);
    for (int k = 0; k < n; ++k)
    {
        double c[3] = {org, org, org};
        c[axis] += mc::choose_from (V);
        c[(axis + 1) % 3] += n < 4 ? mc::choose_from (W) : 0;
        v.push_back (pt (c[0], c[1], c[2])); s += sh (v.back ());
    }
    voxel_laws (v, res, s);
}
static void voxel_laws (const std::vector<P> &v, double res, const std::string &s)
{
    const int n = v.size ();
    P lo = v[0]; for (auto &p : v) { lo.x = std::min (lo.x, p.x); lo.y = std::min (lo.y, p.y); lo.z = std::min (lo.z, p.z); }
    using X = spoc::voxel::voxel_index;
    auto same = [] (const X &x, const X &y) { return x.i == y.i && x.j == y.j && x.k == y.k; };
    auto want = [&] (const P &p, const P &lo) { return X ((size_t) std::floor ((p.x - lo.x) / res), (size_t) std::floor ((p.y - lo.y) / res), (size_t) std::floor ((p.z - lo.z) / res)); };
    const auto a = spoc::voxel::get_voxel_indexes (v, res);
    const auto b = spoc::voxel::get_voxel_indexes (v, spoc::extent::get_extent (v), res);
    std::vector<size_t> all, rev; for (int k = 0; k < n; ++k) { all.push_back (k); rev.push_back (n - 1 - k); }
    rev.push_back (0);
    const auto c = spoc::voxel::get_voxel_indexes (v, rev, res);
    spoc::extent::extent big; big.minp = pt (lo.x - 2, lo.y - 3, lo.z - 1); big.maxp = pt (lo.x + 99, lo.y + 99, lo.z + 99);
    const auto d = spoc::voxel::get_voxel_indexes (v, big, res);
    MC_CHECK (a.size () == (size_t) n && b.size () == (size_t) n && c.size () == rev.size () && d.size () == (size_t) n, "voxel-size", "%s", s.c_str ());
    for (int k = 0; k < n; ++k)
    {
        const X w = want (v[k], lo);
        MC_CHECK (same (a[k], w) && same (b[k], w), "voxel-index", "%s: point %d is in voxel (%zu %zu %zu)", s.c_str (), k, a[k].i, a[k].j, a[k].k);
        MC_CHECK (same (d[k], want (v[k], big.minp)), "voxel-index-extent", "%s: point %d", s.c_str (), k);
    }
    for (size_t k = 0; k < rev.size (); ++k) MC_CHECK (same (c[k], want (v[rev[k]], lo)), "voxel-index-subset", "%s: point %zu", s.c_str (), rev[k]);
    // grouping
    auto key = [] (const X &x) { return std::make_tuple (x.i, x.j, x.k); };
    std::map<std::tuple<size_t,size_t,size_t>,std::set<size_t>> groups;
    for (int k = 0; k < n; ++k) groups[key (want (v[k], lo))].insert (k);
    const auto vs = spoc::voxel::get_voxel_index_set (a);
    const auto vm = spoc::voxel::get_voxel_index_map (a);
    MC_CHECK (vs.size () == groups.size (), "voxel-set", "%s: %zu voxels instead of %zu", s.c_str (), vs.size (), groups.size ());
    MC_CHECK (vm.size () == groups.size (), "voxel-map", "%s: %zu voxels instead of %zu", s.c_str (), vm.size (), groups.size ());
    for (auto &x : vs) MC_CHECK (groups.count (key (x)), "voxel-set", "%s: a voxel without points", s.c_str ());
    for (auto &x : vm)
    {
        const std::set<size_t> g (x.second.begin (), x.second.end ());
        MC_CHECK (g.size () == x.second.size () && groups.count (key (x.first)) && groups[key (x.first)] == g, "voxel-map", "%s: wrong points in a voxel", s.c_str ());
    }
    mc::step (6); mc::state (s); mc::validated ();
}
// Voxels that are far from the minimum corner
MC_SCENARIO ("voxels-far", 0, 0)
{
    static const std::vector<double> V {0, 3, 65535, 65536, 70001, 2147483648.0, 4294967295.0, 4294967296.0, 4294967299.0, 1099511627776.0, 1e15};
    const double res = mc::choose_from (std::vector<double> {1, 0.25, 0.001, 1000});
    const int n = 2 + mc::choose (2);
    std::vector<P> v; std::string s = mc::fmt ("res %g: ", res);
    v.push_back (pt (0, 0, 0));
    for (int k = 1; k < n; ++k)
    {
        double c[3] = {0, 0, 0};
        const int axis = mc::choose (3);
        c[axis] = mc::choose_from (V);
        if (n == 2) c[(axis + 1) % 3] = mc::choose_from (V);
        v.push_back (pt (c[0], c[1], c[2]));
    }
    for (auto &p : v) s += sh (p);
    voxel_laws (v, res, s);
}
// Clouds of any size: extent, center, cropping, columns and voxels
MC_SCENARIO ("many", 0, 0)
{
    if (mc::is_asan) mc::abandon ();
    static const std::vector<size_t> N {257, 1003, 4097, 5003, 65539, 100003};
    const int k = mc::choose (N.size () + (mc::thorough () ? 300 : 70));
    const size_t n = k < (int) N.size () ? N[k] : k - N.size () + 1;
    // The lowest and the highest coordinates are anywhere
    const size_t low = mc::choose (4) * (n - 1) / 3;
    std::vector<P> v; std::vector<point_record> r;
    for (size_t i = 0; i < n; ++i)
    {
        P p = pt (0.25 * (i * 7919 % 1009), 0.5 * (i % 31), (double) (i / 7 % 13));
        if (i == low) p = pt (-3, -4, -5);
        if (i == n - 1 - low) p = pt (300, 400, 500);
        v.push_back (p); r.push_back (item<point_record> (p.x, p.y, p.z)); r.back ().c = i; r.back ().i = i; r.back ().extra = {i * 1000003};
    }
    const std::string s = mc::fmt ("%zu points, extremes at %zu: ", n, low);
    cloud_laws (v, s); cloud_laws (r, s);
    spoc::extent::extent e; e.minp = pt (10, 2, 1); e.maxp = pt (200, 12, 9);
    std::vector<point_record> want;
    for (auto &p : r) if (p.x >= 10 && p.x <= 200 && p.y >= 2 && p.y <= 12 && p.z >= 1 && p.z <= 9) want.push_back (p);
    MC_CHECK (spoc::utils::crop (r, e) == want, "crop", "%scropping", s.c_str ());
    namespace R = spoc::point_record;
    const auto x = R::get_x (r); const auto c = R::get_c (r); const auto in = R::get_i (r); const auto ex = R::get_extra (0, r);
    MC_CHECK (x.size () == n && c.size () == n && in.size () == n && ex.size () == n, "column-size", "%scolumns", s.c_str ());
    for (size_t i = 0; i < n; ++i) MC_CHECK (x[i] == v[i].x && c[i] == (uint32_t) i && in[i] == (uint16_t) i && ex[i] == i * 1000003, "column", "%svalue %zu", s.c_str (), i);
    voxel_laws (v, mc::choose (2) ? 1 : 16, s);
}
// The extreme point, the point inside, the value that is not zero are anywhere
MC_SCENARIO ("anywhere", 0, 0)
{
    if (mc::is_asan) mc::abandon ();
    const int k = mc::choose (mc::thorough () ? 300 : 75);
    const size_t n = k ? k + 1 : 1100, from = k ? 0 : mc::choose (11) * 100, to = k ? n : from + 100;
    std::vector<point_record> r (n);
    for (size_t i = 0; i < n; ++i) { r[i].x = 0.25 * (i * 7919 % 1009); r[i].y = 0.5 * (i % 31); r[i].z = (double) (i / 7 % 13); r[i].extra = {0}; }
    namespace R = spoc::point_record;
    spoc::extent::extent box; box.minp = pt (999, 998, 997); box.maxp = pt (1001, 1002, 1003);
    for (size_t at = from; at < to; ++at)
    {
        const std::string s = mc::fmt ("%zu points, number %zu is different", n, at);
        const point_record old = r[at];
        r[at].x = -3; r[at].y = -4; r[at].z = -5;
        cloud_laws (r, s);
        std::vector<P> v; for (auto &p : r) v.push_back (pt (p.x, p.y, p.z));
        voxel_laws (v, 1, s);
        r[at].x = 1000; r[at].y = 1001; r[at].z = 1002; r[at].c = 7; r[at].b = 1; r[at].extra[0] = 5;
        cloud_laws (r, s);
        const auto c = spoc::utils::crop (r, box);
        MC_CHECK (c.size () == 1 && c[0] == r[at], "crop", "%s: cropping keeps %zu points", s.c_str (), c.size ());
        MC_CHECK (!R::has_all_zero_c (r) && !R::has_all_zero_b (r) && !R::has_all_zero_extra (0, r) && !R::has_all_zero_rgb (r) && R::has_all_zero_p (r) && R::has_all_zero_i (r) && R::has_all_zero_r (r) && R::has_all_zero_g (r), "all-zero", "%s", s.c_str ());
        r[at] = old;
    }
}
// Equality and hashes of voxel indexes
MC_SCENARIO ("voxel-hash", 0, 0)
{
    static const std::vector<size_t> V {0, 1, 65535, 65536, 1ull << 32, ~0ull};
    using X = spoc::voxel::voxel_index;
    const X a (mc::choose_from (V), mc::choose_from (V), mc::choose_from (V));
    const spoc::voxel::voxel_index_hash h;
    spoc::voxel::voxel_index_set set;
    size_t n = 0;
    for (size_t i : V) for (size_t j : V) for (size_t k : V)
    {
        const X b (i, j, k);
        const bool eq = a.i == i && a.j == j && a.k == k;
        MC_CHECK ((a == b) == eq, "voxel-eq", "(%zu %zu %zu) (%zu %zu %zu)", a.i, a.j, a.k, i, j, k);
        if (eq) MC_CHECK (h (a) == h (b), "voxel-hash", "equal voxels with different hashes");
        set.insert (b); ++n;
        mc::step (2);
    }
    MC_CHECK (set.size () == n, "voxel-set", "%zu voxels of %zu", set.size (), n);
    mc::state (h (a)); mc::validated ();
}
MC_MAIN
