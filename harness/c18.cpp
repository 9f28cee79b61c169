// C18: the compression layer is lossless and rejects damaged streams
#include "glue.h"
#include "spoc/compression.h"
#include <fstream>
#include <sys/mman.h>
using bytes = std::vector<uint8_t>;
namespace C = spoc::compression;
static const size_t B = 1 << 20; // around this length the buffers of the implementation wrap

static std::string str (const bytes &b) { return std::string (b.begin (), b.end ()); }
static bytes vec (const std::string &s) { return bytes (s.begin (), s.end ()); }

// A stream that delivers at most n bytes per read
struct Chunked : std::streambuf
{
    std::string d; size_t pos = 0, n;
    Chunked (const std::string &d, size_t n) : d (d), n (n) {}
    int_type underflow () override
    {
        if (pos == d.size ()) return traits_type::eof ();
        const size_t k = std::min (n, d.size () - pos);
        setg (&d[pos], &d[pos], &d[pos] + k); pos += k;
        return traits_type::to_int_type (*gptr ());
    }
};

static std::string do_compress (int how, const std::string &raw, int level)
{
    const bytes v = vec (raw);
    if (how == 0) return str (C::compress (v, level));
    if (how == 1) return str (C::compress (v.data (), v.size (), level));
    std::ostringstream o;
    if (how == 2) { std::istringstream i (raw); C::compress (i, o, level); }
    else { Chunked b (raw, how == 3 ? 1 : 65536); std::istream i (&b); C::compress (i, o, level); }
    return o.str ();
}
static const size_t ANY = ~(size_t) 0;
// The decompressed bytes, or an exception
static std::string do_decompress (int how, const std::string &z, size_t want)
{
    if (how == 0) return str (C::decompress (vec (z)));
    if (how == 1)
    {
        // guard bytes around the destination
        bytes o (want + 64, 0xa5);
        C::decompress (vec (z), o.data () + 32, want);
        for (int k = 0; k < 32; ++k) MC_CHECK (o[k] == 0xa5 && o[want + 32 + k] == 0xa5, "overrun", "bytes outside of the destination were written");
        return std::string (o.begin () + 32, o.begin () + 32 + want);
    }
    std::ostringstream o;
    if (how == 2) { std::istringstream i (z); C::decompress (i, o); }
    else { Chunked b (z, how == 3 ? 1 : 65536); std::istream i (&b); C::decompress (i, o); }
    return o.str ();
}
static const char *HOW[5] = {"buffer", "pointer", "stream", "stream with short reads", "stream with 64k reads"};

// An independent reading of a zlib stream that must use all of its bytes
static bool standard (const std::string &z, std::string &o, size_t want)
{
    o.assign (want + 1, 0);
    z_stream s; memset (&s, 0, sizeof s);
    if (inflateInit2 (&s, 15) != Z_OK) mc::internal_error ("inflateInit2"); // 15: zlib format only
    s.next_in = (Bytef *) z.data (); s.avail_in = z.size ();
    s.next_out = (Bytef *) &o[0]; s.avail_out = o.size ();
    const int r = inflate (&s, Z_FINISH);
    const bool ok = r == Z_STREAM_END && s.total_out == want && s.avail_in == 0;
    inflateEnd (&s);
    o.resize (want);
    return ok;
}
static void round_trip (const std::string &raw, int level, const std::vector<int> &cs, const std::vector<int> &ds)
{
    for (int c : cs)
    {
        std::string z, o;
        std::string what;
        MC_CHECK (!glue::throws ([&] { z = do_compress (c, raw, level); }, &what), "compress-fails", "compressing %zu bytes (%s, level %d) fails: %s", raw.size (), HOW[c], level, what.c_str ());
        MC_CHECK (standard (z, o, raw.size ()) && o == raw, "not-standard", "%zu bytes compressed through the %s interface at level %d: not a standard zlib stream of these bytes", raw.size (), HOW[c], level);
        mc::step ();
        for (int d : ds)
        {
            MC_CHECK (!glue::throws ([&] { o = do_decompress (d, z, raw.size ()); }, &what), "decompress-fails", "%zu bytes, %s -> %s, level %d: decompression fails: %s", raw.size (), HOW[c], HOW[d], level, what.c_str ());
            MC_CHECK (o == raw, "lossy", "%zu bytes, %s -> %s, level %d: other bytes (%zu) are returned", raw.size (), HOW[c], HOW[d], level, o.size ());
            mc::step ();
        }
        mc::state (mc::hash_str (raw) * 7 + level);
    }
    mc::validated ();
}
static std::string pattern (size_t n, int kind)
{
    std::string s (n, 0);
    uint64_t h = 1;
    for (size_t k = 0; k < n; ++k)
        switch (kind)
        {
            case 0: break;
            case 1: if (k % 8 == 0) h = model::mix (h); s[k] = h >> (8 * (k % 8)); break;       // incompressible
            case 2: s[k] = (k / 3) % 251; break;
            default: s[k] = (k % 97 == 0) ? (char) model::mix (k) : 'a'; break;
        }
    return s;
}

// A stream that can not be read any further behind n bytes
struct Broken : std::streambuf
{
    std::string d; size_t n, pos = 0;
    Broken (const std::string &d, size_t n) : d (d), n (n) {}
    int_type underflow () override
    {
        if (pos == n) throw std::runtime_error ("read error");
        const size_t k = std::min<size_t> (n - pos, 65536);
        setg (&d[pos], &d[pos], &d[pos] + k); pos += k;
        return traits_type::to_int_type (*gptr ());
    }
};
// Input streams that can not be read to their end
MC_SCENARIO ("unreadable", 0, 0)
{
    static const std::vector<size_t> N {0, 1, 2, 100, B - 1, B, B + 1, 2 * B, 2 * B + 5};
    const size_t n = mc::choose_from (N);
    const int kind = mc::choose (3), level = mc::choose (3) - 1;
    if (kind && n) mc::abandon ();
    const std::string raw = pattern (n + 10, 1);
    std::string z;
    const bool pack = mc::choose (2);
    if (!pack) z = do_compress (0, raw, 0); // not shorter than the data
    Broken b (pack ? raw : z, n);
    std::istream broken (&b);
    std::istringstream failed (pack ? raw : z); failed.setstate (std::ios::failbit);
    std::ifstream directory (".");
    std::istream &i = kind == 0 ? broken : kind == 1 ? (std::istream &) failed : directory;
    std::ostringstream o;
    const bool err = glue::throws ([&] { if (pack) C::compress (i, o, level); else C::decompress (i, o); });
    MC_CHECK (err, "unreadable", "%s a stream that can not be read behind byte %zu is not an error", pack ? "compressing" : "decompressing", n);
    mc::step (); mc::state (n * 16 + kind * 2 + pack); mc::validated ();
}
// Every byte string over a small alphabet, every level, every pair of interfaces
MC_SCENARIO ("strings", 0, 0)
{
    static const char A[4] = {0, (char) 0xff, 'a', (char) 0x78};
    const int maxlen = mc::is_asan ? 2 : mc::thorough () ? 6 : 4;
    const int n = mc::choose (maxlen + 1);
    std::string s;
    for (int k = 0; k < n; ++k) s += A[mc::choose (mc::is_asan ? 2 : 4)];
    const int level = mc::choose (11) - 1;
    if (!mc::is_asan && !mc::thorough () && n == 4 && level != -1 && level != 0 && level != 9) mc::abandon ();
    round_trip (s, level, {0, 1, 2, 3}, {0, 1, 2, 3});
}
// Every single byte value
MC_SCENARIO ("bytes", 0, 0)
{
    if (mc::is_asan && !mc::thorough ()) { mc::abandon (); }
    const int v = mc::choose (256);
    round_trip (std::string (1 + mc::choose (2) * 6, (char) v), -1, {0, 2}, {0, 2});
}
// Every length from 0 on
MC_SCENARIO ("small-lengths", 0, 0)
{
    const int n = mc::choose (mc::is_asan ? 40 : mc::thorough () ? 3000 : 700);
    const int kind = mc::choose (2);
    const int level = mc::thorough () && !mc::is_asan ? (mc::choose (3) * 5 - 1) : kind ? -1 : 9;
    round_trip (pattern (n, kind), level, {0, 2}, {1, 2});
}
// Lengths for which the input, the output, or the compressed form ends at or near the end of an internal buffer
MC_SCENARIO ("buffer-lengths", 0, 0)
{
    if (mc::is_asan && !mc::thorough ()) { if (mc::choose (3) == 0) round_trip (pattern (B + 1, 2), 1, {0, 2}, {0, 2}); return; }
    const int w = mc::thorough () ? 8 : 2;
    const int which = mc::choose (mc::thorough () ? 3 : 2); // 1, 2, 3 buffers
    const long delta = mc::choose (2 * w + 1) - w;
    const int kind = mc::choose (mc::thorough () ? 4 : 3);
    const int level = mc::thorough () ? mc::choose (11) - 1 : (int[]) {-1, 0, 1, 9}[mc::choose (4)];
    round_trip (pattern ((which + 1) * B + delta, kind), level, {0, 1, 2}, mc::thorough () ? std::vector<int> {0, 1, 2, 4} : std::vector<int> {0, 1, 2});
}
// Incompressible input: the compressed form itself ends at or near the end of an internal buffer
MC_SCENARIO ("compressed-lengths", 0, 0)
{
    if (mc::is_asan && !mc::thorough ()) { mc::abandon (); }
    const int level = mc::choose (2) ? 0 : 6;
    // find the length whose compressed form is exactly one (two) buffers long: sizes grow by 1 per byte here
    const size_t target = B * (1 + mc::choose (mc::thorough () ? 2 : 1));
    const int w = mc::thorough () ? 40 : 6;
    const long delta = mc::choose (2 * w + 1) - w;
    static std::map<std::pair<size_t,int>,size_t> memo;
    size_t &n = memo[{target, level}];
    if (!n)
    {
        size_t lo = target - 4096, hi = target;
        const std::string p = pattern (hi, 1);
        while (lo < hi)
        {
            const size_t mid = (lo + hi) / 2;
            uLongf l = compressBound (mid); std::string o (l, 0);
            if (::compress2 ((Bytef *) &o[0], &l, (const Bytef *) p.data (), mid, level) != Z_OK) mc::internal_error ("compress2");
            if (l < target) lo = mid + 1; else hi = mid;
        }
        n = lo;
    }
    round_trip (pattern (n + delta, 1), level, {0, 2}, {0, 2});
}
// Streams made by zlib itself, in every configuration, are read
MC_SCENARIO ("foreign-streams", 0, 0)
{
    static const std::vector<size_t> L {0, 1, 7, 300, 5000, 70000};
    const size_t n = mc::choose_from (L);
    const int kind = mc::choose (4);
    const int level = mc::choose (4) * 3;                 // 0 3 6 9
    const int wbits = 9 + mc::choose (3) * 3;             // 9 12 15
    const int strategy = mc::choose (5);                  // default filtered huffman rle fixed
    const int chop = mc::choose (3);                      // one block, sync flushes, full flushes
    if (mc::is_asan && (n > 300 || strategy > 2 || level % 6)) mc::abandon ();
    const std::string raw = pattern (n, kind);
    z_stream s; memset (&s, 0, sizeof s);
    if (deflateInit2 (&s, level, Z_DEFLATED, wbits, 8, strategy) != Z_OK) mc::internal_error ("deflateInit2");
    std::string z (deflateBound (&s, n) + 4096 + n, 0);
    s.next_out = (Bytef *) &z[0]; s.avail_out = z.size ();
    size_t k = 0;
    while (chop && k < n)
    {
        const size_t c = std::min<size_t> (n - k, n / 7 + 1);
        s.next_in = (Bytef *) raw.data () + k; s.avail_in = c; k += c;
        if (deflate (&s, chop == 1 ? Z_SYNC_FLUSH : Z_FULL_FLUSH) != Z_OK) mc::internal_error ("deflate");
    }
    s.next_in = (Bytef *) raw.data () + k; s.avail_in = n - k;
    if (deflate (&s, Z_FINISH) != Z_STREAM_END) mc::internal_error ("deflate end");
    z.resize (s.total_out);
    deflateEnd (&s);
    for (int d : {0, 1, 2, 3})
    {
        if (d == 3 && n > 5000) continue;
        std::string o, what;
        MC_CHECK (!glue::throws ([&] { o = do_decompress (d, z, n); }, &what), "foreign-refused", "a valid zlib stream (level %d, window %d, strategy %d, flushes %d, %zu bytes) is refused through the %s interface: %s", level, wbits, strategy, chop, n, HOW[d], what.c_str ());
        MC_CHECK (o == raw, "foreign-lossy", "a valid zlib stream (level %d, window %d, strategy %d, flushes %d, %zu bytes) is read wrongly through the %s interface", level, wbits, strategy, chop, n, HOW[d]);
        mc::step ();
    }
    mc::state (z); mc::validated ();
}

// ---- damage ----
static const std::vector<std::string> &victims ()
{
    static const std::vector<std::string> v = [] {
        std::vector<std::string> v {"", std::string ("a"), pattern (24, 1), pattern (100, 0), pattern (200, 2)};
        if (mc::thorough ()) { v.push_back (pattern (600, 1)); v.push_back (pattern (3000, 3)); }
        return v;
    } ();
    return v;
}
// Whatever comes out is right, or it is an error. (Damage that zlib itself can't see, such as changed padding
// bits, leaves the bytes unchanged.)
static void read_damaged (const std::string &z, const std::string &raw, const char *damage, bool must_fail)
{
    std::string ref;
    if (!must_fail)
    {
        // is the damaged stream still a complete stream of some bytes? Bytes after its end are not judged.
        z_stream s; memset (&s, 0, sizeof s);
        ref.assign (raw.size () * 2 + 70000, 0);
        inflateInit (&s);
        s.next_in = (Bytef *) z.data (); s.avail_in = z.size (); s.next_out = (Bytef *) &ref[0]; s.avail_out = ref.size ();
        const int r = inflate (&s, Z_FINISH);
        if (r == Z_STREAM_END) ref.resize (s.total_out); else must_fail = true;
        inflateEnd (&s);
    }
    for (int d = 0; d < 4; ++d)
    {
        std::string o, what;
        const bool err = glue::throws ([&] { o = do_decompress (d, z, raw.size ()); }, &what);
        if (must_fail) MC_CHECK (err, "damage-accepted", "%zu bytes, %s: accepted through the %s interface", raw.size (), damage, HOW[d]);
        else if (!err) MC_CHECK (o == ref, "wrong-data", "%zu bytes, %s: wrong data through the %s interface", raw.size (), damage, HOW[d]);
        mc::step ();
    }
    mc::state (z); mc::validated ();
}
static std::string victim (std::string &raw)
{
    const int k = mc::choose ((int) victims ().size ());
    raw = victims ()[k];
    const int level = mc::choose (3); // default, stored, best
    if (mc::is_asan && (k > 2 || level)) mc::abandon ();
    std::string z (compressBound (raw.size ()), 0);
    uLongf n = z.size ();
    if (::compress2 ((Bytef *) &z[0], &n, (const Bytef *) raw.data (), raw.size (), level == 0 ? -1 : level == 1 ? 0 : 9) != Z_OK) mc::internal_error ("compress2");
    z.resize (n);
    return z;
}
MC_SCENARIO ("cut", 0, 0)
{
    std::string raw; const std::string z = victim (raw);
    const size_t k = mc::choose ((int) z.size ());
    read_damaged (z.substr (0, k), raw, mc::fmt ("cut behind byte %zu of %zu", k, z.size ()).c_str (), true);
}
MC_SCENARIO ("bit-flips", 0, 0)
{
    std::string raw; std::string z = victim (raw);
    const size_t k = mc::choose ((int) z.size () * 8);
    z[k / 8] ^= 1 << (k % 8);
    read_damaged (z, raw, mc::fmt ("bit %zu flipped", k).c_str (), false);
}
MC_SCENARIO ("byte-values", 0, 0)
{
    if (mc::is_asan) mc::abandon ();
    std::string raw; std::string z = victim (raw);
    if (raw.size () > 100 && !mc::thorough ()) mc::abandon ();
    const size_t k = mc::choose ((int) z.size ());
    // header and trailer bytes take every value, the others a few
    const bool edge = k < 3 || k + 4 >= z.size ();
    z[k] ^= edge || mc::thorough () ? 1 + mc::choose (255) : (int[]) {1, 0x80, 0xff, 0x55}[mc::choose (4)];
    read_damaged (z, raw, mc::fmt ("byte %zu changed", k).c_str (), false);
}
// A long stream cut near the ends of buffers
MC_SCENARIO ("long-cut", 0, 0)
{
    if (mc::is_asan) mc::abandon ();
    const size_t n = (mc::choose (2) + 1) * B + mc::choose (3) - 1;
    const int level = mc::choose (2) ? 0 : 1;
    const std::string raw = pattern (n, 1);
    uLongf l = compressBound (n); std::string z (l, 0);
    if (::compress2 ((Bytef *) &z[0], &l, (const Bytef *) raw.data (), n, level) != Z_OK) mc::internal_error ("compress2");
    z.resize (l);
    static const std::vector<long> cuts {1, 2, 3, 4, 5, 6, 8, 100, (long) B, -1, -2};
    const long c = mc::choose_from (cuts);
    const size_t keep = c > 0 ? z.size () - c : c == -1 ? B : B - 1;
    if (keep >= z.size ()) mc::abandon ();
    read_damaged (z.substr (0, keep), raw, mc::fmt ("cut behind byte %zu of %zu", keep, z.size ()).c_str (), true);
}
// The size is not the expected one
MC_SCENARIO ("unexpected-size", 0, 0)
{
    static const std::vector<size_t> L {0, 1, 2, 7, 8, 9, 100, 101};
    const size_t n = mc::choose_from (L), m = mc::choose_from (L);
    const bytes z = C::compress (vec (pattern (n, 1)));
    bytes o (m + 64, 0xa5);
    const bool err = glue::throws ([&] { C::decompress (z, o.data () + 32, m); });
    MC_CHECK (err == (n != m), "size", "%zu bytes decompressed where %zu are expected: %s", n, m, err ? "an error" : "no error");
    for (int k = 0; k < 32; ++k) MC_CHECK (o[k] == 0xa5 && o[m + 32 + k] == 0xa5, "overrun", "bytes outside of the destination were written");
    mc::step (); mc::state (n * 1000 + m); mc::validated ();
}
// Lengths that do not fit in 32 bits
MC_SLOW_SCENARIO ("huge", 0, 0, 400)
{
    if (mc::is_asan) mc::abandon ();
    const size_t G = (size_t) 1 << 32;
    const int what = mc::choose (2);
    std::vector<uint8_t> o (B);
    if (what == 0)
    {
        static const std::vector<size_t> N {G + 7, G - 1, G, G + 3 * B + 1, 2 * G, 2 * G + 1};
        const size_t n = N[mc::choose (mc::thorough () ? 6 : 2)];
        uint8_t *p = (uint8_t *) mmap (nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) mc::internal_error ("mmap");
        struct Unmap { uint8_t *p; size_t n; ~Unmap () { munmap (p, n); } } unmap {p, n};
        p[0] = 1; p[n - 1] = 2; p[n / 2] = 3; if (n > G) { p[G] = 4; p[G - 1] = 5; } p[n - 7] = 6;
        const bytes z = C::compress (p, n, 1);
        z_stream s; memset (&s, 0, sizeof s);
        if (inflateInit (&s) != Z_OK) mc::internal_error ("inflateInit");
        s.next_in = (Bytef *) z.data (); s.avail_in = z.size ();
        size_t t = 0; int r; bool same = true;
        do
        {
            s.next_out = o.data (); s.avail_out = o.size ();
            r = inflate (&s, Z_NO_FLUSH);
            const size_t k = o.size () - s.avail_out;
            same = same && t + k <= n && !memcmp (p + t, o.data (), k);
            t += k;
        } while (r == Z_OK && same);
        inflateEnd (&s);
        MC_CHECK (r == Z_STREAM_END && same && t == n, "huge", "%zu bytes compressed through the pointer interface: a stream of %zu bytes%s", n, t, same ? "" : " that are different");
        mc::state (n);
    }
    else
    {
        // Empty stored blocks, followed by one that holds a few bytes
        static const std::vector<size_t> N {G + 8, G - 100, 2 * G + 8};
        const size_t n = N[mc::choose (mc::thorough () ? 3 : 1)];
        const std::string raw = "the end";
        const uint8_t E[5] = {0, 0, 0, 255, 255};
        bytes z {0x78, 0x01};
        z.reserve (n + 64);
        const size_t m = n / 5;
        z.resize (2 + 5 * m);
        memcpy (&z[2], E, 5);
        for (size_t k = 5; k < 5 * m;) { const size_t l = std::min (k, 5 * m - k); memcpy (&z[2 + k], &z[2], l); k += l; }
        const uint8_t H[5] = {1, (uint8_t) raw.size (), 0, (uint8_t) ~raw.size (), 255};
        z.insert (z.end (), H, H + 5); z.insert (z.end (), raw.begin (), raw.end ());
        const uint32_t a = adler32 (adler32 (0, nullptr, 0), (const Bytef *) raw.data (), raw.size ());
        for (int k = 3; k >= 0; --k) z.push_back (a >> (8 * k));
        bytes d; std::string err;
        MC_CHECK (!glue::throws ([&] { d = C::decompress (z); }, &err), "huge", "a stream of %zu bytes is refused: %s", z.size (), err.c_str ());
        MC_CHECK (str (d) == raw, "huge", "a stream of %zu bytes is decompressed to other bytes", z.size ());
        mc::state (n);
    }
    mc::step (); mc::validated ();
}
// The result is decided by the data and the level, not by what was compressed before; 0 stores, 9 is not worse than 1
MC_SCENARIO ("levels-in-turn", 0, 0)
{
    const int a = mc::choose (11) - 1, b = mc::choose (11) - 1, how = mc::choose (5), other = mc::choose (3);
    std::string raw; for (int k = 0; raw.size () < 6000; ++k) raw += "record " + std::to_string (k * k % 101) + " ";
    const std::string x = do_compress (how, raw, a);
    const std::string y = do_compress (how, raw, b);
    do_compress (other, "something else", b);
    MC_CHECK (do_compress (how, raw, a) == x, "level-history", "compressing at level %d, %d, %d through the %s interface: the results for level %d differ", a, b, a, HOW[how], a);
    auto laws = [&] (int l, const std::string &z)
    {
        if (l == 0) MC_CHECK (z.size () > raw.size (), "level-effect", "level 0 through the %s interface after level %d: %zu bytes of %zu", HOW[how], l == a ? b : a, z.size (), raw.size ());
        else MC_CHECK (z.size () < raw.size () / 2, "level-effect", "level %d through the %s interface after another one: %zu bytes of %zu", l, HOW[how], z.size (), raw.size ());
    };
    laws (a, x); laws (b, y);
    if (a == 1 && b == 9) MC_CHECK (y.size () <= x.size (), "level-effect", "level 9 gives %zu bytes, level 1 %zu", y.size (), x.size ());
    if (a == b) MC_CHECK (x == y, "level-history", "level %d twice gives different results", a);
    mc::step (4); mc::state (x + y); mc::validated ();
}
// An invalid level is an error
MC_SCENARIO ("levels", 0, 0)
{
    static const std::vector<int> L {-1000, -3, -2, 10, 11, 99, 2147483647};
    const int level = mc::choose_from (L);
    const int how = mc::choose (3);
    MC_CHECK (glue::throws ([&] { do_compress (how, "abc", level); }), "level", "level %d is accepted through the %s interface", level, HOW[how]);
    mc::step (); mc::state (level); mc::validated ();
}
MC_MAIN
