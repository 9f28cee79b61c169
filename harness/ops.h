// Model of the commands of spoc_transform
#pragma once
#include "cli.h"
#include <cmath>
#include <functional>

namespace ops
{
using namespace model;
struct Op
{
    std::string arg;              // the command line argument
    std::function<void (Rec &)> f;
    int fields = 0;               // bit mask of the coordinates it may change
    bool approx = false;          // coordinates up to rounding
};
inline const char *AX = "xyz";
inline Op add (int a, const std::string &v)
{
    const double d = std::strtod (v.c_str (), nullptr);
    return {mc::fmt ("--add-%c=", AX[a]) + v, [=] (Rec &r) { coord (r, a) = coord (r, a) + d; }, 1 << a};
}
inline Op scale (int a, const std::string &v)
{
    const double d = std::strtod (v.c_str (), nullptr);
    return {mc::fmt ("--scale-%c=", AX[a]) + v, [=] (Rec &r) { coord (r, a) = coord (r, a) * d; }, 1 << a};
}
// The two coordinates that a rotation about an axis changes
inline void plane (int axis, int &u, int &v) { u = axis == 0 ? 1 : 0; v = axis == 2 ? 1 : 2; }
inline void rotated (int axis, double degrees, double a, double b, double &ra, double &rb)
{
    // Exact at multiples of 90 degrees, otherwise in extended precision
    long double s, c;
    const long double m = fmodl ((long double) degrees, 360.0L);
    if (m == 0) { s = 0; c = 1; }
    else if (m == 90 || m == -270) { s = 1; c = 0; }
    else if (m == 180 || m == -180) { s = 0; c = -1; }
    else if (m == 270 || m == -90) { s = -1; c = 0; }
    else { s = sinl (m * 3.141592653589793238462643383279502884L / 180.0L); c = cosl (m * 3.141592653589793238462643383279502884L / 180.0L); }
    (void) axis;
    ra = (double) (a * c - b * s);
    rb = (double) (a * s + b * c);
}
inline Op rotate (int axis, const std::string &v)
{
    const double d = std::strtod (v.c_str (), nullptr);
    int p, q; plane (axis, p, q);
    return {mc::fmt ("--rotate-%c=", AX[axis]) + v, [=] (Rec &r) { double a, b; rotated (axis, d, coord (r, p), coord (r, q), a, b); coord (r, p) = a; coord (r, q) = b; }, 7 & ~(1 << axis), true};
}
inline double quantized (double v, double p) { return std::trunc (v / p) * p; }
inline Op quantize (const std::string &v)
{
    const double d = std::strtod (v.c_str (), nullptr);
    return {"--quantize-xyz=" + v, [=] (Rec &r) { for (int a = 0; a < 3; ++a) coord (r, a) = quantized (coord (r, a), d) + 0.0; }, 7};
}
inline Op set (int f, const std::string &v)
{
    if (f < 3)
    {
        const double d = std::strtod (v.c_str (), nullptr);
        return {"--set=" + field_name (f) + "," + v, [=] (Rec &r) { coord (r, f) = d; }, 1 << f};
    }
    const uint64_t u = std::strtoull (v.c_str (), nullptr, 10);
    return {"--set=" + field_name (f) + "," + v, [=] (Rec &r) { set_int (r, f, u); }};
}
inline Op replace (int f, uint64_t a, uint64_t b)
{
    return {"--replace=" + field_name (f) + "," + std::to_string (a) + "," + std::to_string (b), [=] (Rec &r) { if (get_int (r, f) == a) set_int (r, f, b); }};
}
inline Op replace_not (int f, std::vector<uint64_t> a, uint64_t b)
{
    std::string s; for (auto x : a) s += "," + std::to_string (x);
    return {"--replace-not=" + field_name (f) + s + "," + std::to_string (b), [=] (Rec &r) { for (auto x : a) if (get_int (r, f) == x) return; set_int (r, f, b); }};
}
inline Op copy (int f, int g)
{
    return {"--copy-field=" + field_name (f) + "," + field_name (g), [=] (Rec &r) { set_int (r, g, get_int (r, f)); }};
}
inline Cloud apply (Cloud c, const std::vector<Op> &v) { for (auto &o : v) for (auto &r : c.v) o.f (r); return c; }
// Equal up to rounding relative to the size of the point
inline bool close (double a, double b, double size) { if (std::isnan (a) || std::isnan (b)) return std::isnan (a) && std::isnan (b); return a == b || std::fabs (a - b) <= 1e-12 * size; }
inline double size_of (const Rec &r) { return std::fabs (r.x) + std::fabs (r.y) + std::fabs (r.z); }
// The coordinates that no command names and all other fields bit for bit, the rest as numbers; not-a-number equals itself
inline std::string differ (const Cloud &want, const Cloud &got, int fields, bool approx, const Cloud &in)
{
    Cloud w = want, g = got;
    if (w.v.size () == g.v.size ())
        for (size_t k = 0; k < w.v.size (); ++k)
            for (int a = 0; a < 3; ++a) if (fields >> a & 1)
            {
                double &x = coord (w.v[k], a), &y = coord (g.v[k], a);
                const bool same = approx ? close (x, y, size_of (in.v[k]) + size_of (want.v[k]) + 1e-290) : x == y || (std::isnan (x) && std::isnan (y));
                if (same) x = y = 0.0;
                else return mc::fmt ("record %zu: %c = %.17g, expected %.17g", k, AX[a], y, x);
            }
    if (header_bytes (w) != header_bytes (g)) return "header: " + show (g) + " / " + show (w);
    return model::differ (w, g);
}
inline void check (const Cloud &in, const std::vector<Op> &v, const cli::Args &extra = {})
{
    cli::Args a = extra; int fields = 0; bool approx = false;
    for (auto &o : v) { a.push_back (o.arg); fields |= o.fields; approx = approx || o.approx; }
    const Cloud want = apply (in, v), got = cli::cloud ("transform", a, encode (in));
    const std::string d = differ (want, got, fields, approx, in);
    MC_CHECK (d.empty (), "formula", "spoc_transform %s: %s\ninput:    %s\nexpected: %s\noutput:   %s", cli::join (a).c_str (), d.c_str (), show (in).c_str (), show (want).c_str (), show (got).c_str ());
    mc::state (hash (got)); mc::validated ();
}
} // namespace ops
