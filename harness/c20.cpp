// C20: in-memory affine and quantize operations match the formulas and the transform command
#include "ops.h"
#include "glue.h"
#include "spoc/affine.h"
using namespace ops;
namespace af = spoc::affine;
using Pt = spoc::point::point<double>;

// An operation of the library together with the command it stands for
struct Lib { Op op; int kind, axis; double v; };
enum { ADD, SCALE, ROTATE, QUANTIZE };
template<typename T> void run (T &p, const Lib &l)
{
    mc::step ();
    switch (l.kind * 3 + l.axis)
    {
        case ADD * 3: return af::add_x (p, l.v);
        case ADD * 3 + 1: return af::add_y (p, l.v);
        case ADD * 3 + 2: return af::add_z (p, l.v);
        case SCALE * 3: return af::scale_x (p, l.v);
        case SCALE * 3 + 1: return af::scale_y (p, l.v);
        case SCALE * 3 + 2: return af::scale_z (p, l.v);
        case ROTATE * 3: return af::rotate_x (p, l.v);
        case ROTATE * 3 + 1: return af::rotate_y (p, l.v);
        case ROTATE * 3 + 2: return af::rotate_z (p, l.v);
        default: return spoc::utils::quantize (p, l.v);
    }
}
static Lib lib (int kind, int axis, const std::string &v)
{
    const Op o = kind == ADD ? add (axis, v) : kind == SCALE ? scale (axis, v) : kind == ROTATE ? rotate (axis, v) : quantize (v);
    return {o, kind, kind == QUANTIZE ? 0 : axis, std::strtod (v.c_str (), nullptr)};
}
static std::string text (const std::vector<Lib> &v) { std::string s; for (auto &l : v) s += l.op.arg.substr (2) + " "; return s; }
// Runs the operations on records and on points; compares with the formulas and with the command
static void check (const Cloud &in, const std::vector<Lib> &v, bool command = true)
{
    int fields = 0; bool approx = false;
    Cloud want = in;
    std::vector<Op> o;
    for (auto &l : v) { fields |= l.op.fields; approx = approx || l.op.approx; o.push_back (l.op); }
    want = ops::apply (in, o);
    auto p = glue::to_spoc (in.v);
    for (auto &l : v) run (p, l);
    Cloud got = in; got.v.clear ();
    for (auto &r : p) got.v.push_back (glue::from_spoc (r));
    const std::string d = differ (want, got, fields, approx, in);
    MC_CHECK (d.empty (), "formula", "%son records: %s\ninput:    %s\nexpected: %s\nresult:   %s", text (v).c_str (), d.c_str (), show (in).c_str (), show (want).c_str (), show (got).c_str ());
    std::vector<Pt> q;
    for (auto &r : in.v) { Pt t; t.x = r.x; t.y = r.y; t.z = r.z; q.push_back (t); }
    for (auto &l : v) run (q, l);
    MC_CHECK (q.size () == got.v.size (), "points", "%s: number of points", text (v).c_str ());
    for (size_t k = 0; k < q.size (); ++k)
        MC_CHECK (bits (q[k].x) == bits (got.v[k].x) && bits (q[k].y) == bits (got.v[k].y) && bits (q[k].z) == bits (got.v[k].z), "points", "%son points and on records differ: (%.17g %.17g %.17g) / %s", text (v).c_str (), q[k].x, q[k].y, q[k].z, show (got.v[k]).c_str ());
    if (command)
    {
        cli::Args a; for (auto &l : v) a.push_back (l.op.arg);
        const Cloud c = cli::cloud ("transform", a, encode (in));
        const std::string e = differ (c, got, fields, approx, in);
        MC_CHECK (e.empty (), "command", "spoc_transform %s and the library differ: %s\ninput:   %s\ncommand: %s\nlibrary: %s", cli::join (a).c_str (), e.c_str (), show (in).c_str (), show (c).c_str (), show (got).c_str ());
    }
    mc::state (hash (got)); mc::validated ();
}
static const std::vector<std::string> NUM {"1", "0", "-1", "0.5", "-2.75", "100.1", "1e10", "-3e-5", "1e300", "2.5e-300", "123456789.125", "-0"};
static const std::vector<std::string> DEG {"90", "0", "180", "270", "360", "-90", "45", "30", "1", "0.001", "-123.456", "720", "36000.5", "1e-9"};
static const std::vector<std::string> PREC {"1", "0.5", "0.25", "2", "1024", "0.0009765625", "0.1", "0.01", "10", "0.3", "3", "1e-9", "1e9"};

MC_SCENARIO ("add-scale", 1, 2)
{
    const int kind = mc::choose (2), axis = mc::choose (3);
    const std::string v = mc::choose_from (NUM);
    Cloud in = make (1 + mc::choose (2), mc::choose (2), "w", false, mc::choose (3));
    deviate (in);
    check (in, {lib (kind, axis, v)}, !mc::is_asan);
}
// Adding a point or a record adds its coordinates
MC_SCENARIO ("add-point", 2, 3)
{
    Cloud in = make (2, 1, "", false, 1);
    const auto &D = all_doubles ();
    for (auto &r : in.v) for (int a = 0; a < 3; ++a) { const int k = mc::dev (D.size () + 1); if (k) coord (r, a) = D[k - 1]; }
    double v[3] = {0.5, -2, 1024};
    for (double &x : v) { const int k = mc::dev (D.size () + 1); if (k) x = D[k - 1]; }
    std::vector<Pt> q;
    for (auto &r : in.v) { Pt t; t.x = r.x; t.y = r.y; t.z = r.z; q.push_back (t); }
    Pt w; w.x = v[0]; w.y = v[1]; w.z = v[2];
    af::add (q, w);
    auto p = glue::to_spoc (in.v);
    Rec wr = pattern_rec (5, 1, 1); wr.x = v[0]; wr.y = v[1]; wr.z = v[2];
    af::add (p, glue::to_spoc (wr));
    mc::step (2);
    Cloud want = in, a = in, b = in;
    for (size_t k = 0; k < in.v.size (); ++k)
    {
        for (int c = 0; c < 3; ++c) coord (want.v[k], c) += v[c];
        a.v[k].x = q[k].x; a.v[k].y = q[k].y; a.v[k].z = q[k].z;
        b.v[k] = glue::from_spoc (p[k]);
    }
    for (const Cloud *c : {&a, &b})
    {
        const std::string d = ops::differ (want, *c, 7, false, in);
        MC_CHECK (d.empty (), "add-point", "adding (%g %g %g) to %s: %s", v[0], v[1], v[2], show (in).c_str (), d.c_str ());
    }
    mc::state (hash (b)); mc::validated ();
}
MC_SCENARIO ("rotate", 1, 2)
{
    const int axis = mc::choose (3);
    const std::string v = mc::choose_from (DEG);
    Cloud in = make (1 + mc::choose (2), mc::choose (2), "", false, mc::choose (2));
    static const std::vector<double> X {0.0, 1.0, -1.0, 0.1, -2.5, 1e100, -1e-100, 123456.789, 2147483648.0};
    for (auto &r : in.v) for (int f = 0; f < (int) (9 + in.extra); ++f)
    {
        if (f < 3) { const int k = mc::dev (X.size () + 1); if (k) coord (r, f) = X[k - 1]; }
        else { const auto &I = ints_of (f); const int k = mc::dev (I.size () + 1); if (k) set_int (r, f, I[k - 1]); }
    }
    check (in, {lib (ROTATE, axis, v)}, !mc::is_asan);
}
// Rotation keeps the coordinate along the axis and the distance from it, and is undone by the opposite rotation
MC_SCENARIO ("rotate-laws", 0, 0)
{
    const int axis = mc::choose (3);
    const std::string &v = mc::choose_from (DEG);
    const double deg = std::strtod (v.c_str (), nullptr);
    static const std::vector<double> X {0.0, -0.0, 1.0, -1.0, 0.1, -2.5, 1e150, -1e-150, 123456.789, -2147483648.0};
    std::vector<Pt> q;
    const double x = mc::choose_from (X);
    for (double y : X) for (double z : X) { Pt t; t.x = x; t.y = y; t.z = z; q.push_back (t); }
    const auto in = q;
    run (q, {Op {}, ROTATE, axis, deg});
    auto back = q;
    run (back, {Op {}, ROTATE, axis, -deg});
    auto at = [] (const Pt &p, int a) { return a == 0 ? p.x : a == 1 ? p.y : p.z; };
    int u, w; plane (axis, u, w);
    for (size_t k = 0; k < q.size (); ++k)
    {
        const double r = std::hypot (at (in[k], u), at (in[k], w)), s = std::hypot (at (q[k], u), at (q[k], w));
        MC_CHECK (at (q[k], axis) == at (in[k], axis), "axis", "rotation about %c changes %c", AX[axis], AX[axis]);
        MC_CHECK (std::fabs (r - s) <= 1e-12 * r, "distance", "rotation of (%g %g %g) by %s about %c changes the distance from the axis from %.17g to %.17g", in[k].x, in[k].y, in[k].z, v.c_str (), AX[axis], r, s);
        for (int a : {u, w}) MC_CHECK (std::fabs (at (back[k], a) - at (in[k], a)) <= 1e-12 * r, "undo", "rotation of (%g %g %g) by %s about %c is not undone: (%.17g %.17g %.17g)", in[k].x, in[k].y, in[k].z, v.c_str (), AX[axis], back[k].x, back[k].y, back[k].z);
        mc::state (mc::hash_bytes (&q[k], sizeof q[k]));
    }
    mc::validated (q.size ());
}
// The general rotation gives every function the three original coordinates
MC_SCENARIO ("rotate-general", 0, 0)
{
    const int n = mc::choose (4);
    const int f[3] = {mc::choose (4), mc::choose (4), mc::choose (4)};
    Cloud in = make (n, 1, "", false, 1);
    auto op = [] (int k, double x, double y, double z) { return k == 0 ? x : k == 1 ? y : k == 2 ? z : x + 10 * y + 100 * z; };
    auto p = glue::to_spoc (in.v);
    af::rotate (p, [&] (double x, double y, double z) { return op (f[0], x, y, z); }, [&] (double x, double y, double z) { return op (f[1], x, y, z); }, [&] (double x, double y, double z) { return op (f[2], x, y, z); });
    mc::step ();
    for (int k = 0; k < n; ++k)
    {
        Rec w = in.v[k]; const Rec o = w;
        for (int a = 0; a < 3; ++a) coord (w, a) = op (f[a], o.x, o.y, o.z);
        MC_CHECK (same (w, glue::from_spoc (p[k])), "rotate-general", "functions %d %d %d on %s give %s", f[0], f[1], f[2], show (o).c_str (), show (glue::from_spoc (p[k])).c_str ());
        mc::state (rec_bytes (w));
    }
    mc::validated ();
}
MC_SCENARIO ("quantize", 2, 3)
{
    const std::string v = mc::choose_from (PREC);
    const double p = std::strtod (v.c_str (), nullptr);
    Cloud in = make (2, 1, "w", false, 1);
    static const std::vector<double> K {0.5, -0.5, 0.25, -0.25, 0.75, 1.5, -1.5, 1.25, 2.5, -7.75, 1000.5, -123456.75, 3e9 + 0.5, -3e9 - 0.5, 1e14 + 0.5, -5e12 - 0.5};
    for (auto &r : in.v) for (int a = 0; a < 3; ++a) { const int k = mc::dev (K.size () + 1); coord (r, a) = k ? K[k - 1] * p : 3.5 * p; }
    int e; const bool exact = std::frexp (p, &e) == 0.5;
    if (exact)
    {
        static const std::vector<double> M {0.0, -0.0, 1.0, -1.0, 2.0, -3.0, 4294967296.0, -2147483649.0, 9007199254740992.0, -9.3e18, 1e290};
        for (auto &r : in.v) for (int a = 0; a < 3; ++a) { const int k = mc::dev (M.size () + 1); if (k) coord (r, a) = M[k - 1] * p; }
    }
    else for (auto &r : in.v) for (int a = 0; a < 3; ++a) if (std::fabs (coord (r, a) / p) > 1e12) mc::abandon ();
    const Lib q = lib (QUANTIZE, 0, v);
    check (in, {q}, !mc::is_asan);
    auto r = glue::to_spoc (in.v);
    run (r, q);
    for (size_t k = 0; k < r.size (); ++k) for (int a = 0; a < 3; ++a)
    {
        const Rec g = glue::from_spoc (r[k]);
        const double was = coord (in.v[k], a), is = coord (g, a);
        MC_CHECK (std::fabs (is) <= std::fabs (was) * (1 + 1e-15) && is * was >= 0, "toward-zero", "quantize %s: %.17g becomes %.17g", v.c_str (), was, is);
        MC_CHECK (!std::signbit (is) || is != 0, "negative-zero", "quantize %s: %.17g becomes a negative zero", v.c_str (), was);
        // A multiple of the precision, the last one before the value
        const long double m = (long double) is / p;
        MC_CHECK (std::fabs ((double) (m - roundl (m))) <= 1e-15 * std::fabs ((double) m), "multiple", "quantize %s: %.17g becomes %.17g", v.c_str (), was, is);
        MC_CHECK (std::fabs (was - is) < p * (1 + 1e-3), "nearest", "quantize %s: %.17g becomes %.17g", v.c_str (), was, is);
    }
    if (exact)
    {
        auto s = r; run (s, q);
        for (size_t k = 0; k < r.size (); ++k) MC_CHECK (same (glue::from_spoc (r[k]), glue::from_spoc (s[k])), "idempotent", "quantize %s of %s changes it again", v.c_str (), show (glue::from_spoc (r[k])).c_str ());
    }
}
// Every number of points: each one is changed, once
MC_SCENARIO ("sizes", 0, 0)
{
    std::vector<size_t> N; for (size_t n = 0; n <= 70; ++n) N.push_back (n);
    for (size_t n : {127, 128, 129, 1000, 1023, 1025, 5003, 70001}) N.push_back (n);
    const size_t n = mc::choose_from (N);
    const int k = mc::choose (10);
    if (mc::is_asan && n > 5003) mc::abandon ();
    Cloud in = make (n, n % 3, "", false, 1);
    check (in, {lib (k / 3, k % 3, k < 3 ? "1.5" : k < 6 ? "-2" : k < 9 ? "90" : "4")});
}
// All sequences
MC_SCENARIO ("sequences", 0, 0)
{
    static const std::vector<Lib> S = [] {
        std::vector<Lib> v;
        for (int a = 0; a < 3; ++a) { v.push_back (lib (ADD, a, "0.75")); v.push_back (lib (SCALE, a, "-2")); v.push_back (lib (ROTATE, a, "30")); v.push_back (lib (ROTATE, a, "-90")); }
        v.push_back (lib (QUANTIZE, 0, "0.5"));
        return v;
    } ();
    const int n = mc::thorough () ? 4 : 3;
    if (mc::is_asan && !mc::thorough ()) mc::abandon ();
    std::vector<Lib> v;
    bool rotated = false;
    Cloud in = make (2, 1, "w", false, 1);
    for (int k = 0; k < n; ++k)
    {
        const int s = mc::choose (S.size () + (k ? 1 : 0));
        if (s == (int) S.size ()) break;
        // Rounding decides what is behind a rotation: only the command is comparable then
        if (S[s].kind == QUANTIZE && rotated) mc::abandon ();
        rotated = rotated || S[s].kind == ROTATE;
        v.push_back (S[s]);
    }
    check (in, v);
}
MC_MAIN
