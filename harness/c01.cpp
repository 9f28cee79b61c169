// C01: byte layout and lossless round trip of uncompressed files
#include "glue.h"
using namespace model;

static std::string write_whole (const spoc::file::spoc_file &f, int how)
{
    std::ostringstream s;
    if (how == 0) spoc::io::write_spoc_file (s, f);
    else if (how == 1) spoc::io::write_spoc_file_uncompressed (s, f);
    else
    {
        spoc::header::write_header (s, f.get_header ());
        for (const auto &p : f.get_point_records ()) spoc::point_record::write_point_record (s, p);
    }
    return s.str ();
}
static const char *HOW_W[] = {"write_spoc_file", "write_spoc_file_uncompressed", "write_header + write_point_record"};
static const char *HOW_R[] = {"read_spoc_file", "read_spoc_file_uncompressed", "read_header + read_point_record"};

static Cloud read_whole (std::istream &s, int how)
{
    if (how == 0) return glue::from_spoc (spoc::io::read_spoc_file (s));
    if (how == 1) return glue::from_spoc (spoc::io::read_spoc_file_uncompressed (s));
    const spoc::header::header h = spoc::header::read_header (s);
    Cloud c; c.wkt = h.wkt; c.compressed = h.compressed; c.extra = h.total_points ? h.extra_fields : 0; c.major = h.major_version; c.minor = h.minor_version;
    for (size_t n = 0; n < h.total_points; ++n) c.v.push_back (glue::from_spoc (spoc::point_record::read_point_record (s, h.extra_fields)));
    return c;
}
static size_t first_diff (const std::string &a, const std::string &b) { size_t k = 0; while (k < a.size () && k < b.size () && a[k] == b[k]) ++k; return k; }

// The whole property for one cloud
static void verify (const Cloud &c, bool also_files = false)
{
    const std::string want = encode (c);
    mc::state (hash (c));
    mc::note (show (c));
    const auto f = glue::to_spoc (c);
    for (int how = 0; how < 3; ++how)
    {
        const std::string got = write_whole (f, how);
        mc::step ();
        MC_CHECK (got == want, std::string ("layout/") + HOW_W[how], "%s: wrote %zu bytes, the layout has %zu, first difference at byte %zu; %s", HOW_W[how], got.size (), want.size (), first_diff (got, want), show (c).c_str ());
    }
    for (int how = 0; how < 3; ++how)
    {
        std::istringstream s (want);
        Cloud got;
        std::string what;
        const bool err = glue::throws ([&] { got = read_whole (s, how); }, &what);
        mc::step ();
        MC_CHECK (!err, std::string ("read-error/") + HOW_R[how], "%s refuses a valid file: %s; %s", HOW_R[how], what.c_str (), show (c).c_str ());
        const std::string d = differ (c, got);
        MC_CHECK (d.empty (), std::string ("read/") + HOW_R[how], "%s: what was read differs: %s; %s", HOW_R[how], d.c_str (), show (c).c_str ());
        MC_CHECK ((size_t) s.tellg () == want.size (), std::string ("consumed/") + HOW_R[how], "%s consumed %lld of %zu bytes", HOW_R[how], (long long) s.tellg (), want.size ());
    }
    {
        std::istringstream s (want);
        const auto h = spoc::header::read_header (s);
        MC_CHECK ((size_t) s.tellg () == header_size (c), "header-size", "read_header consumed %lld bytes, the header has %zu", (long long) s.tellg (), header_size (c));
        MC_CHECK (h.wkt == c.wkt && h.extra_fields == c.extra && h.total_points == c.v.size () && !h.compressed && h.major_version == c.major && h.minor_version == c.minor,
            "header-read", "read_header differs; %s", show (c).c_str ());
        MC_CHECK (h == f.get_header () && !(h != f.get_header ()), "header-equal", "the header read is not equal to the header written; %s", show (c).c_str ());
        mc::step ();
    }
    if (also_files)
    {
        { std::ofstream o ("f.spoc"); spoc::io::write_spoc_file (o, f); }
        std::ifstream i ("f.spoc");
        const Cloud got = read_whole (i, 0);
        const std::string d = differ (c, got);
        MC_CHECK (d.empty (), "file", "round trip through a file: %s", d.c_str ());
        unlink ("f.spoc");
        mc::step ();
    }
    mc::validated ();
}

// Every combination of boundary values in up to 2 cells of small clouds
MC_SCENARIO ("cells", 2, 2)
{
    const int n = mc::choose (4);
    const int extra = mc::choose (3);
    Cloud c = make (n, extra, "W", false, mc::choose (3));
    deviate (c);
    verify (c);
}
// ... in up to 3 cells of smaller ones
MC_SCENARIO ("cells3", -1, 3)
{
    static const int SHAPE[5][2] = {{1, 0}, {1, 1}, {1, 2}, {1, 3}, {2, 0}};
    const auto &sh = SHAPE[mc::choose (5)];
    Cloud c = make (sh[0], sh[1], "W", false, mc::choose (3));
    deviate (c);
    verify (c);
}

// Every number of records x every number of extra fields: all read buffer alignments
MC_SCENARIO ("sizes", 0, 0)
{
    static std::vector<int> E;
    if (E.empty ()) for (int e = 0; e < 256; ++e) if (mc::thorough () || e <= 24 || e >= 253 || (e >= 118 && e <= 130) || (e & (e - 1)) == 0 || ((e + 1) & e) == 0) E.push_back (e);
    const int extra = mc::choose_from (E);
    const int n = mc::choose (mc::thorough () ? 140 : 82);
    verify (make (n, extra, "", false, 2), n < 3);
}

// Every WKT length (thorough) or all short ones and those around every power of two, and every byte value
MC_SCENARIO ("wkt-length", 0, 0)
{
    static std::vector<int> L;
    if (L.empty ()) for (int l = 0; l < 65536; ++l)
    {
        bool in = l < 600;
        for (int p = 10; p <= 16; ++p) in |= std::abs (l - (1 << p)) <= 2;
        if (mc::thorough () || in) L.push_back (l);
    }
    const int l = mc::choose_from (L);
    const int n = mc::thorough () ? 2 : mc::choose (3);
    verify (make (n, 1, wkt_of_length (l), false, 2), true);
}
MC_SCENARIO ("wkt-bytes", 0, 0)
{
    const int len = 1 + mc::choose (4);
    const int pos = mc::choose (len);
    std::string w (len, 'w');
    w[pos] = (char) mc::choose (256);
    if (mc::thorough () && len > 1) w[(pos + 1) % len] = (char) mc::choose (256);
    verify (make (2, 1, w, false, 1));
}

// A single bit set (or cleared) anywhere in the records
MC_SCENARIO ("bits", 0, 0)
{
    const int n = 1 + mc::choose (3);
    const int extra = mc::choose (mc::thorough () ? 9 : 4);
    const bool ones = mc::choose (2);
    const size_t rs = 40 + 8 * extra;
    Cloud c = make (n, extra, "W", false, 0);
    std::string raw (rs * n, ones ? '\xff' : 0);
    const int bit = mc::choose ((int) raw.size () * 8);
    raw[bit / 8] ^= (char) (1 << (bit % 8));
    size_t k = 0;
    for (auto &r : c.v) if (!get_rec (raw, k, extra, r)) mc::internal_error ("get_rec");
    verify (c);
}

// What a header may say about a cloud without records
MC_SCENARIO ("header-fields", 0, 0)
{
    const int extra = mc::choose (256);
    static const std::vector<uint64_t> N {0, 1, 255, 256, 65536, 1ull << 31, 1ull << 32, 1ull << 40, ~0ull};
    const uint64_t n = mc::choose_from (N);
    const int comp = mc::choose (2);
    const std::string w = wkt_of_length (mc::choose (4));
    std::string b = "SPOC";
    b.push_back (spoc::MAJOR_VERSION); b.push_back (spoc::MINOR_VERSION);
    put_le<uint16_t> (b, w.size ()); b += w; b.push_back ((char) extra); put_le<uint64_t> (b, n); b.push_back ((char) comp);
    std::istringstream s (b);
    const auto h = spoc::header::read_header (s);
    MC_CHECK (h.wkt == w && h.extra_fields == extra && h.total_points == n && !!h.compressed == !!comp, "header-read", "header with %d extra fields, %" PRIu64 " points, flag %d is misread", extra, n, comp);
    std::ostringstream o;
    spoc::header::write_header (o, h);
    MC_CHECK (o.str () == b, "header-write", "header with %d extra fields, %" PRIu64 " points, flag %d is written differently", extra, n, comp);
    mc::step (2); mc::validated (); mc::state (b);
}

// Histories: several clouds written to one stream and read back one after the other. Nothing of one cloud
// may show in another.
MC_SCENARIO ("histories", 0, 0)
{
    const int len = mc::thorough () ? 4 : 3;
    std::vector<Cloud> cs;
    std::ostringstream o;
    std::string want;
    for (int k = 0; k < len; ++k)
    {
        static const int N[] = {0, 1, 2, 30}, E[] = {0, 1, 3};
        const int kind = mc::choose (12);
        cs.push_back (make (N[kind / 3], E[kind % 3], wkt_of_length (k), false, 2 + k));
        spoc::io::write_spoc_file (o, glue::to_spoc (cs.back ()));
        want += encode (cs.back ());
        mc::step ();
    }
    MC_CHECK (o.str () == want, "layout/sequence", "clouds written one after another differ from the layout at byte %zu", first_diff (o.str (), want));
    std::istringstream s (want);
    const int how = mc::choose (3);
    for (auto &c : cs)
    {
        Cloud got; std::string what;
        MC_CHECK (!glue::throws ([&] { got = read_whole (s, how); }, &what), "read-error/sequence", "%s", what.c_str ());
        const std::string d = differ (c, got);
        MC_CHECK (d.empty (), "read/sequence", "%s: cloud in a sequence: %s", HOW_R[how], d.c_str ());
        mc::state (hash (c)); mc::step ();
    }
    mc::validated ();
}

MC_MAIN
