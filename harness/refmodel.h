// Independent reference model of SPOC clouds: plain records, the documented byte layout, and bounded
// generators of clouds. Nothing here uses the code under test except the library's version numbers.
#pragma once
#include "mc.h"
#include <optional>
#include <zlib.h>
#include "spoc/version.h"

namespace model
{

struct Rec
{
    double x = 0, y = 0, z = 0;
    uint32_t c = 0, p = 0;
    uint16_t i = 0, r = 0, g = 0, b = 0;
    std::vector<uint64_t> e;
};

struct Cloud
{
    std::string wkt;
    bool compressed = false;
    std::vector<Rec> v;
    // extra fields the header declares. A cloud without records written by the library declares none.
    size_t extra = 0;
    uint8_t major = spoc::MAJOR_VERSION, minor = spoc::MINOR_VERSION;
};

inline uint64_t bits (double d) { uint64_t u; memcpy (&u, &d, 8); return u; }
inline double from_bits (uint64_t u) { double d; memcpy (&d, &u, 8); return d; }
inline void put (std::string &s, const void *p, size_t n) { s.append ((const char *) p, n); }
template<typename T> void put_le (std::string &s, T v) { for (size_t k = 0; k < sizeof (T); ++k) s.push_back ((char) (uint8_t) ((uint64_t) v >> (8 * k))); }
inline void put_rec (std::string &s, const Rec &r)
{
    put_le<uint64_t> (s, bits (r.x)); put_le<uint64_t> (s, bits (r.y)); put_le<uint64_t> (s, bits (r.z));
    put_le<uint32_t> (s, r.c); put_le<uint32_t> (s, r.p);
    put_le<uint16_t> (s, r.i); put_le<uint16_t> (s, r.r); put_le<uint16_t> (s, r.g); put_le<uint16_t> (s, r.b);
    for (uint64_t u : r.e) put_le<uint64_t> (s, u);
}
inline std::string rec_bytes (const Rec &r) { std::string s; put_rec (s, r); return s; }
inline bool same (const Rec &a, const Rec &b)
{
    return bits (a.x) == bits (b.x) && bits (a.y) == bits (b.y) && bits (a.z) == bits (b.z)
        && a.c == b.c && a.p == b.p && a.i == b.i && a.r == b.r && a.g == b.g && a.b == b.b && a.e == b.e;
}
inline std::string header_bytes (const Cloud &c)
{
    std::string s = "SPOC";
    s.push_back ((char) c.major); s.push_back ((char) c.minor);
    put_le<uint16_t> (s, (uint16_t) c.wkt.size ());
    s += c.wkt;
    s.push_back ((char) (uint8_t) c.extra);
    put_le<uint64_t> (s, c.v.size ());
    s.push_back (c.compressed ? 1 : 0);
    return s;
}
// Size of the header of a cloud
inline size_t header_size (const Cloud &c) { return 4 + 2 + 2 + c.wkt.size () + 1 + 8 + 1; }
inline std::string deflated (const std::string &raw)
{
    uLongf n = compressBound (raw.size ());
    std::string o (n, 0);
    if (::compress2 ((Bytef *) &o[0], &n, (const Bytef *) raw.data (), raw.size (), Z_DEFAULT_COMPRESSION) != Z_OK) mc::internal_error ("compress2");
    o.resize (n);
    return o;
}
// The raw bytes of the field streams of a compressed file
inline std::vector<std::string> field_streams (const Cloud &c)
{
    std::vector<std::string> f (9 + c.extra);
    for (auto &r : c.v)
    {
        put_le<uint64_t> (f[0], bits (r.x)); put_le<uint64_t> (f[1], bits (r.y)); put_le<uint64_t> (f[2], bits (r.z));
        put_le<uint32_t> (f[3], r.c); put_le<uint32_t> (f[4], r.p);
        put_le<uint16_t> (f[5], r.i); put_le<uint16_t> (f[6], r.r); put_le<uint16_t> (f[7], r.g); put_le<uint16_t> (f[8], r.b);
        for (size_t k = 0; k < c.extra; ++k) put_le<uint64_t> (f[9 + k], r.e[k]);
    }
    return f;
}
inline bool all_zero (const std::string &s) { for (char ch : s) if (ch) return false; return true; }
// The bytes of a file that holds this cloud. (The bytes of the zlib streams of a compressed one may differ
// from what the library writes, but not what they decode to.)
inline std::string encode (const Cloud &c)
{
    std::string s = header_bytes (c);
    if (!c.compressed) { for (auto &r : c.v) put_rec (s, r); return s; }
    for (auto &f : field_streams (c))
    {
        if (all_zero (f)) { put_le<uint64_t> (s, 0); continue; }
        const std::string z = deflated (f);
        put_le<uint64_t> (s, z.size ());
        s += z;
    }
    return s;
}
template<typename T> bool get_le (const std::string &s, size_t &k, T &v)
{
    if (k + sizeof (T) > s.size ()) return false;
    uint64_t u = 0;
    for (size_t j = 0; j < sizeof (T); ++j) u |= (uint64_t) (uint8_t) s[k + j] << (8 * j);
    v = (T) u; k += sizeof (T);
    return true;
}
inline bool get_double (const std::string &s, size_t &k, double &d) { uint64_t u; if (!get_le (s, k, u)) return false; d = from_bits (u); return true; }
inline bool get_rec (const std::string &s, size_t &k, size_t extra, Rec &r)
{
    if (!(get_double (s, k, r.x) && get_double (s, k, r.y) && get_double (s, k, r.z)
        && get_le (s, k, r.c) && get_le (s, k, r.p) && get_le (s, k, r.i) && get_le (s, k, r.r) && get_le (s, k, r.g) && get_le (s, k, r.b))) return false;
    r.e.resize (extra);
    for (auto &u : r.e) if (!get_le (s, k, u)) return false;
    return true;
}
// Inflates exactly one complete zlib stream of the expected size
inline bool inflated (const char *p, size_t n, size_t want, std::string &o)
{
    o.assign (want + 1, 0);
    z_stream z; memset (&z, 0, sizeof z);
    if (inflateInit (&z) != Z_OK) mc::internal_error ("inflateInit");
    z.next_in = (Bytef *) p; z.avail_in = (uInt) n;
    z.next_out = (Bytef *) &o[0]; z.avail_out = (uInt) o.size ();
    const int r = inflate (&z, Z_FINISH);
    const size_t got = z.total_out;
    inflateEnd (&z);
    if (r != Z_STREAM_END || got != want) return false;
    o.resize (want);
    return true;
}
struct Parsed { Cloud c; size_t end; };
// Reads a cloud, or returns nothing if the bytes do not hold one. Bytes behind it are not looked at.
inline std::optional<Parsed> parse (const std::string &s, size_t k = 0)
{
    Cloud c;
    if (s.size () < k + 8 || s.compare (k, 4, "SPOC") != 0) return {};
    k += 4;
    c.major = s[k++]; c.minor = s[k++];
    uint16_t wl; get_le (s, k, wl);
    if (k + wl > s.size ()) return {};
    c.wkt = s.substr (k, wl); k += wl;
    uint8_t ex; uint64_t n; uint8_t comp;
    if (!get_le (s, k, ex) || !get_le (s, k, n) || !get_le (s, k, comp)) return {};
    c.extra = ex; c.compressed = comp != 0;
    if (c.major != spoc::MAJOR_VERSION) return {};
    if (!c.compressed)
    {
        if (n > (s.size () - k) / (40 + 8 * (size_t) ex)) return {};
        c.v.resize (n);
        for (auto &r : c.v) if (!get_rec (s, k, ex, r)) return {};
        return Parsed {c, k};
    }
    if (n >= (1ull << 24)) return {};
    c.v.resize (n);
    for (auto &r : c.v) r.e.resize (ex);
    static const size_t w[9] = {8, 8, 8, 4, 4, 2, 2, 2, 2};
    for (size_t f = 0; f < 9u + ex; ++f)
    {
        const size_t width = f < 9 ? w[f] : 8;
        uint64_t len;
        if (!get_le (s, k, len) || len > s.size () - k) return {};
        if (len == 0) continue;
        std::string raw;
        if (!inflated (s.data () + k, len, width * n, raw)) return {};
        k += len;
        size_t q = 0;
        for (auto &r : c.v)
        {
            switch (f)
            {
                case 0: get_double (raw, q, r.x); break;
                case 1: get_double (raw, q, r.y); break;
                case 2: get_double (raw, q, r.z); break;
                case 3: get_le (raw, q, r.c); break;
                case 4: get_le (raw, q, r.p); break;
                case 5: get_le (raw, q, r.i); break;
                case 6: get_le (raw, q, r.r); break;
                case 7: get_le (raw, q, r.g); break;
                case 8: get_le (raw, q, r.b); break;
                default: get_le (raw, q, r.e[f - 9]);
            }
        }
    }
    return Parsed {c, k};
}
inline std::string show (const Rec &r)
{
    std::string s = mc::fmt ("(%.17g %.17g %.17g c%u p%u i%u r%u g%u b%u", r.x, r.y, r.z, r.c, r.p, r.i, r.r, r.g, r.b);
    for (size_t k = 0; k < r.e.size () && k < 6; ++k) s += mc::fmt (" e%" PRIu64, r.e[k]);
    if (r.e.size () > 6) s += mc::fmt (" ...%zu extras", r.e.size ());
    return s + ")";
}
inline std::string show (const Cloud &c, size_t maxr = 6)
{
    std::string s = mc::fmt ("%s cloud, wkt %zu bytes, %zu extras, %zu records:", c.compressed ? "compressed" : "uncompressed", c.wkt.size (), c.extra, c.v.size ());
    for (size_t k = 0; k < c.v.size () && k < maxr; ++k) s += " " + show (c.v[k]);
    return s;
}
// Empty string if the same
inline std::string differ (const Cloud &a, const Cloud &b)
{
    if (a.major != b.major || a.minor != b.minor) return "version";
    if (a.wkt != b.wkt) return mc::fmt ("wkt (%zu bytes, %zu bytes)", a.wkt.size (), b.wkt.size ());
    if (a.compressed != b.compressed) return "compression flag";
    if (a.v.size () != b.v.size ()) return mc::fmt ("number of records (%zu, %zu)", a.v.size (), b.v.size ());
    if (a.extra != b.extra) return mc::fmt ("number of extra fields (%zu, %zu)", a.extra, b.extra);
    for (size_t k = 0; k < a.v.size (); ++k) if (!same (a.v[k], b.v[k])) return mc::fmt ("record %zu: ", k) + show (a.v[k]) + " / " + show (b.v[k]);
    return "";
}
inline uint64_t hash (const Cloud &c)
{
    std::string s = header_bytes (c);
    for (auto &r : c.v) put_rec (s, r);
    return mc::hash_str (s);
}

// ---- field access by number: 0-8 the named fields, 9+k extra field k ----
inline const char *FIELD_NAMES[9] = {"x", "y", "z", "c", "p", "i", "r", "g", "b"};
inline std::string field_name (int f) { return f < 9 ? FIELD_NAMES[f] : "e" + std::to_string (f - 9); }
inline uint64_t get_int (const Rec &r, int f)
{
    switch (f) { case 3: return r.c; case 4: return r.p; case 5: return r.i; case 6: return r.r; case 7: return r.g; case 8: return r.b; default: return r.e.at (f - 9); }
}
inline void set_int (Rec &r, int f, uint64_t v)
{
    switch (f) { case 3: r.c = v; break; case 4: r.p = v; break; case 5: r.i = v; break; case 6: r.r = v; break; case 7: r.g = v; break; case 8: r.b = v; break; default: r.e.at (f - 9) = v; }
}
inline double &coord (Rec &r, int f) { return f == 0 ? r.x : f == 1 ? r.y : r.z; }
inline const double &coord (const Rec &r, int f) { return f == 0 ? r.x : f == 1 ? r.y : r.z; }
inline bool same_field (const Rec &a, const Rec &b, int f)
{
    if (f < 3) return bits (coord (a, f)) == bits (coord (b, f));
    return get_int (a, f) == get_int (b, f);
}
inline int bits_of (int f) { return f < 3 ? 64 : f < 5 ? 32 : f < 9 ? 16 : 64; }

// ---- generators ----
// Alphabets of boundary values. The first element is the neutral one.
inline const std::vector<double> &all_doubles ()
{
    static const double inf = 1.0 / 0.0;
    static const std::vector<double> v {0.0, -0.0, 1.0, -1.0, 0.1, -2.5, 1e300, -1e300, inf, -inf, from_bits (0x7ff8000000000001ull), from_bits (0xfff8000000000000ull),
        from_bits (0x7ff0000000000001ull), from_bits (1), from_bits (0x000fffffffffffffull), 2147483648.0, -2147483649.0, 4294967296.0, 9007199254740993.0, 123456.789, from_bits (0x0807060504030201ull)};
    return v;
}
inline const std::vector<double> &finite_doubles ()
{
    static const std::vector<double> v {0.0, -0.0, 1.0, -1.0, 0.1, -2.5, 1e300, -1e300, from_bits (1), from_bits (0x000fffffffffffffull), 2147483648.0, -2147483649.0, 4294967296.0, 9007199254740993.0, 123456.789};
    return v;
}
inline const std::vector<uint64_t> &ints_of (int f)
{
    static const std::vector<uint64_t> v32 {0, 1, 2, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x04030201u};
    static const std::vector<uint64_t> v16 {0, 1, 2, 255, 256, 0x7fff, 0x8000, 0xffff, 0x0201};
    static const std::vector<uint64_t> v64 {0, 1, 2, 0xff, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull, 0x0807060504030201ull, (1ull << 53) + 1};
    const int b = bits_of (f);
    return b == 16 ? v16 : b == 32 ? v32 : v64;
}
// Value number n of a pattern that makes every byte of every field of every record different from its neighbours'
inline uint64_t mix (uint64_t n) { n += 0x9e3779b97f4a7c15ull; n = (n ^ (n >> 30)) * 0xbf58476d1ce4e5b9ull; n = (n ^ (n >> 27)) * 0x94d049bb133111ebull; return n ^ (n >> 31); }
inline Rec pattern_rec (size_t n, size_t extra, int pattern)
{
    Rec r; r.e.resize (extra);
    if (pattern == 0) return r; // all zero
    if (pattern == 1)           // small distinct values
    {
        r.x = 1.0 + n; r.y = 2.5 * n - 3; r.z = -0.5 * n; r.c = 2 + n % 5; r.p = n; r.i = 7 * n + 1; r.r = 11 + n; r.g = 13 + 2 * n; r.b = 17 + 3 * n;
        for (size_t k = 0; k < extra; ++k) r.e[k] = 1000 * (k + 1) + n;
        return r;
    }
    // arbitrary bits everywhere
    uint64_t h = mix (n * 1000003 + pattern);
    auto nx = [&] { h = mix (h); return h; };
    r.x = from_bits (nx ()); r.y = from_bits (nx ()); r.z = from_bits (nx ());
    r.c = nx (); r.p = nx (); r.i = nx (); r.r = nx (); r.g = nx (); r.b = nx ();
    for (auto &u : r.e) u = nx ();
    return r;
}
// Field-by-field deviations from a pattern: every set of up to (bound) cells takes every boundary value
inline void deviate (Cloud &c, bool finite_only = false)
{
    const auto &D = finite_only ? finite_doubles () : all_doubles ();
    for (auto &r : c.v)
        for (int f = 0; f < (int) (9 + c.extra); ++f)
        {
            if (f < 3) { const int k = mc::dev ((int) D.size () + 1); if (k) coord (r, f) = D[k - 1]; }
            else { const auto &I = ints_of (f); const int k = mc::dev ((int) I.size () + 1); if (k) set_int (r, f, I[k - 1]); }
        }
}
inline std::string wkt_of_length (size_t n)
{
    std::string s (n, 0);
    for (size_t k = 0; k < n; ++k) s[k] = (char) (k * 37 + 65 + k / 256);
    return s;
}
inline Cloud make (size_t n, size_t extra, const std::string &wkt, bool compressed, int pattern)
{
    Cloud c; c.wkt = wkt; c.compressed = compressed; c.extra = n ? extra : 0;
    for (size_t k = 0; k < n; ++k) c.v.push_back (pattern_rec (k, extra, pattern));
    return c;
}

} // namespace model
