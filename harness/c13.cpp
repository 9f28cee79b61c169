// C13: diff succeeds exactly when the compared parts are equal
#include "cli.h"
using namespace model;
using cli::Args;

static bool eq_header (const Cloud &a, const Cloud &b)
{
    return a.major == b.major && a.minor == b.minor && a.wkt == b.wkt && cli::norm (a).extra == cli::norm (b).extra && a.v.size () == b.v.size () && a.compressed == b.compressed;
}
static bool eq_field (const Cloud &a, const Cloud &b, int f)
{
    if (a.v.size () != b.v.size ()) return false;
    for (size_t k = 0; k < a.v.size (); ++k)
    {
        if (f < 3) { if (coord (a.v[k], f) != coord (b.v[k], f)) return false; }
        else if (get_int (a.v[k], f) != get_int (b.v[k], f)) return false;
    }
    return true;
}
static bool eq_data (const Cloud &a, const Cloud &b)
{
    if (a.v.size () != b.v.size () || cli::norm (a).extra != cli::norm (b).extra) return false;
    for (size_t f = 0; f < 9 + cli::norm (a).extra; ++f) if (!eq_field (a, b, f)) return false;
    return true;
}
static const char LETTERS[] = "xyzcpirgb0123456789";
static int field_of (char c) { return strchr (LETTERS, c) - LETTERS; }
static bool verdict (const Cloud &a, const Cloud &b, int mode, const std::string &fields)
{
    if (mode == 0) return eq_header (a, b) && eq_data (a, b);
    if (mode == 1) return eq_header (a, b);
    if (mode == 2) return eq_data (a, b);
    for (char c : fields) if (!eq_field (a, b, field_of (c))) return false;
    return true;
}
// mode: 0 all, 1 header, 2 data, 3 fields
static void compare_files (const Cloud &a, const Cloud &b, int mode, const std::string &fields, int style, bool reverse)
{
    Args o;
    if (mode == 1) o.push_back (style % 2 ? "--header-only" : "-a");
    if (mode == 2) o.push_back (style % 2 ? "--data-only" : "-d");
    if (mode == 3)
    {
        if (style % 3 == 0) o = {"-f", fields};
        else if (style % 3 == 1) o = {"--field=" + fields};
        else for (char c : fields) { o.push_back ("-f"); o.push_back (std::string (1, c)); }
    }
    if (reverse) o.insert (style % 2 ? o.end () : o.begin (), style % 2 ? "--reverse" : "-r");
    const bool same = verdict (a, b, mode, fields);
    for (int order = 0; order < 2 + (a.v.size () < 9); ++order)
    {
        Args x = o; x.push_back (order == 1 ? "b.spoc" : "a.spoc"); x.push_back (order == 1 ? "a.spoc" : "b.spoc");
        if (order == 2) x.insert (style % 2 ? x.begin () : x.end (), style % 3 ? "-v" : "--verbose");
        const app::Result r = app::run ("diff", x);
        MC_CHECK ((r.rc == 0) == (same != reverse), "verdict", "spoc_diff %s: exit %d (%s), the compared parts are %s\na: %s\nb: %s", cli::join (x).c_str (), r.rc, r.err.c_str (), same ? "equal" : "different", show (a).c_str (), show (b).c_str ());
        MC_CHECK (r.out.empty (), "stdout", "spoc_diff %s: %zu bytes on standard output", cli::join (x).c_str (), r.out.size ());
    }
    mc::state (mc::hash_str (cli::join (o)) + hash (a) * 3 + hash (b)); mc::validated ();
}
static void files (const Cloud &a, const Cloud &b) { app::clean (); app::spit ("a.spoc", encode (a)); app::spit ("b.spoc", encode (b)); }
static std::string letters (size_t extra) { return std::string (LETTERS).substr (0, 9 + std::min<size_t> (extra, 10)); }

// All modes and every single field
static void all_modes (const Cloud &a, const Cloud &b, size_t extra)
{
    files (a, b);
    const bool reverse = mc::choose (2);
    for (int m = 0; m < 3; ++m) compare_files (a, b, m, "", m + reverse, reverse);
    if (!a.v.empty () && !b.v.empty () && a.extra == b.extra) for (char c : letters (extra)) compare_files (a, b, 3, std::string (1, c), c % 3, reverse);
}
static const std::vector<double> &dv () { static const std::vector<double> v {0.5, -1, 1e300, from_bits (0x3ff0000000000001ull), 1.0 / 0.0, -1.0 / 0.0, 4294967296.0, from_bits (1)}; return v; }
static void deviate2 (Cloud &c)
{
    for (auto &r : c.v)
        for (int f = 0; f < (int) (9 + c.extra); ++f)
        {
            if (f < 3) { const int k = mc::dev ((int) dv ().size () + 1); if (k) coord (r, f) = dv ()[k - 1]; }
            else { const auto &I = ints_of (f); const int k = mc::dev ((int) I.size () + 1); if (k) set_int (r, f, I[k - 1]); }
        }
}
// One value of one (thorough: two) of the records differs
MC_SCENARIO ("values", 1, 2)
{
    const int n = 1 + mc::choose (3); const size_t extra = mc::choose (3);
    const Cloud a = make (n, extra, "w", false, 1);
    Cloud b = a;
    deviate2 (b);
    all_modes (a, b, extra);
}
// Every single bit of every integer field of every record, and of the coordinates
MC_SCENARIO ("bits", 0, 0)
{
    const size_t extra = mc::choose (2) ? 10 : 0;
    const int n = 3;
    const Cloud a = make (n, extra, "w", false, 1);
    Cloud b = a;
    const int rec = mc::choose (n), f = mc::choose ((int) (9 + extra));
    if (extra && f > 2 && f < 9 && !mc::thorough ()) mc::abandon ();
    const int bit = mc::choose (bits_of (f));
    if (f < 3)
    {
        coord (b.v[rec], f) = from_bits (bits (coord (a.v[rec], f)) ^ (1ull << bit));
        if (coord (b.v[rec], f) != coord (b.v[rec], f) || coord (b.v[rec], f) == coord (a.v[rec], f)) mc::abandon ();
    }
    else set_int (b.v[rec], f, get_int (a.v[rec], f) ^ (1ull << bit));
    all_modes (a, b, extra);
}
// Order of records
MC_SCENARIO ("order", 0, 0)
{
    const int n = 2 + mc::choose (2);
    Cloud a = make (n, 1, "w", false, 0), b = a;
    const int f = mc::choose (10);
    auto set = [&] (Rec &r, int v) { if (f < 3) coord (r, f) = v; else set_int (r, f, v); };
    for (auto &r : a.v) set (r, mc::choose (3));
    for (auto &r : b.v) set (r, mc::choose (3));
    all_modes (a, b, 1);
}
// Numbers of records: one is a prefix of the other, or they have nothing
MC_SCENARIO ("lengths", 0, 0)
{
    const int n = mc::choose (4), m = mc::choose (4);
    const int pattern = mc::choose (2);
    const size_t extra = mc::choose (2);
    all_modes (make (n, extra, "w", false, pattern), make (m, extra, "w", false, pattern), extra);
}
// Headers
MC_SCENARIO ("headers", 0, 0)
{
    static const std::vector<std::string> W {"", "w", "x", "ww", wkt_of_length (300), wkt_of_length (301), std::string (3, 0), std::string (2, 0)};
    const std::string wa = mc::choose_from (W), wb = mc::choose_from (W);
    const bool ca = mc::choose (2), cb = mc::choose (2);
    if (mc::is_asan && (ca || cb) && wa.size () + wb.size () > 2) mc::abandon ();
    const int n = mc::choose (2) * 2;
    const int ea = mc::choose (3), eb = mc::choose (3);
    if (!mc::thorough () && ea != eb && wa != wb) mc::abandon ();
    all_modes (make (n, ea, wa, ca, 1), make (n, eb, wb, cb, 1), ea);
}
// Every number of extra fields against nearby ones; extra fields all zero
MC_SCENARIO ("extras", 0, 0)
{
    static const std::vector<int> E {0, 1, 2, 9, 10, 11, 254, 255};
    const int ea = mc::choose_from (E), eb = mc::choose_from (E);
    const int pattern = mc::choose (2);
    all_modes (make (2, ea, "w", false, pattern), make (2, eb, "w", false, pattern), ea);
}
// A difference in any extra field, also those that have no letter
MC_SCENARIO ("each-extra", 0, 0)
{
    const int extra = mc::choose (2) ? 255 : 12;
    const int f = mc::choose (extra), rec = mc::choose (2);
    Cloud a = make (2, extra, "w", false, 0), b = a;
    b.v[rec].e[f] = 1ull << (f % 64);
    files (a, b);
    for (int m = 0; m < 3; ++m) compare_files (a, b, m, "", m, false);
    for (char c = '0'; c <= '9'; ++c) compare_files (a, b, 3, std::string (1, c), c % 3, false);
}
// Sets and sequences of fields
MC_SCENARIO ("field-lists", 0, 0)
{
    const size_t extra = 2;
    const std::string L = letters (extra); // 11 letters
    const Cloud a = make (2, extra, "w", false, 1);
    Cloud b = a;
    const int f = mc::choose (12); // the field that differs
    if (f < 11) { if (f < 3) coord (b.v[1], f) += 1; else set_int (b.v[1], f, get_int (a.v[1], f) + 1); }
    const int n = 1 + mc::choose (mc::thorough () && !mc::is_asan ? 4 : 3);
    std::string s; for (int k = 0; k < n; ++k) s += L[n > 2 ? mc::choose (11) : mc::choose (11)];
    files (a, b);
    const bool reverse = n < 3 ? mc::choose (2) : 0;
    compare_files (a, b, 3, s, n < 3 ? mc::choose (3) : 0, reverse);
    if (n == 1) { std::string all = L; compare_files (a, b, 3, all, 0, reverse); std::reverse (all.begin (), all.end ()); compare_files (a, b, 3, all, 2, reverse); }
}
// Combinations of two differing fields never cancel
MC_SCENARIO ("two-fields", 0, 0)
{
    const size_t extra = 2;
    const Cloud a = make (2, extra, "w", false, 1);
    Cloud b = a;
    const int f = mc::choose (11), g = mc::choose (11), rf = mc::choose (2), rg = mc::choose (2);
    auto bump = [&] (Rec &r, int f, int d) { if (f < 3) coord (r, f) += d; else set_int (r, f, get_int (r, f) + d); };
    bump (b.v[rf], f, 1); bump (b.v[rg], g, -1);
    all_modes (a, b, extra);
}
// Compressed and uncompressed files with the same content differ in the header only
MC_SCENARIO ("compression", 0, 0)
{
    const int n = mc::choose (3);
    const Cloud a = make (n, 1, "w", mc::choose (2), 1);
    Cloud b = a; b.compressed = mc::choose (2);
    if (mc::choose (2) && n) b.v[n - 1].e[0] ^= 1;
    all_modes (a, b, 1);
}
// A file and itself
MC_SCENARIO ("itself", 0, 0)
{
    const Cloud a = make (mc::choose (4), mc::choose (3), "w", !mc::is_asan && mc::choose (2), 1);
    files (a, a);
    const int m = mc::choose (4), f = m == 3 ? mc::choose (9) : 0;
    if (m == 3 && a.v.empty ()) mc::abandon ();
    const bool reverse = mc::choose (2);
    Args x; if (reverse) x.push_back ("-r");
    if (m == 1) x.push_back ("-a"); else if (m == 2) x.push_back ("-d"); else if (m == 3) { x.push_back ("-f"); x.push_back (std::string (1, LETTERS[f])); }
    if (mc::choose (2)) x.push_back ("-v");
    x.push_back ("a.spoc"); x.push_back ("a.spoc");
    const app::Result r = app::run ("diff", x);
    MC_CHECK ((r.rc == 0) == !reverse && r.out.empty (), "itself", "spoc_diff %s: exit %d, %s", cli::join (x).c_str (), r.rc, show (a).c_str ());
    mc::validated ();
}
// Long files
MC_SCENARIO ("long", 0, 0)
{
    const int n = mc::choose (2) ? 70001 : 3001;
    if (mc::is_asan && n > 3001) mc::abandon ();
    const Cloud a = make (n, 1, "w", false, 1);
    Cloud b = a;
    const int at = mc::choose (3) * (n - 1) / 2, f = mc::choose (11);
    if (f < 10) { if (f < 3) coord (b.v[at], f) += 1; else set_int (b.v[at], f, get_int (b.v[at], f) ^ 1); }
    all_modes (a, b, 1);
}
// The records that differ are anywhere
MC_SCENARIO ("anywhere", 0, 0)
{
    if (mc::is_asan) mc::abandon ();
    const int n = mc::choose_from (std::vector<int> {7, 65, 520}), at = mc::choose (n), f = at % 10;
    const Cloud a = make (n, 1, "w", false, 1);
    Cloud b = a;
    if (f < 3) coord (b.v[at], f) += 1; else set_int (b.v[at], f, get_int (b.v[at], f) ^ 1);
    files (a, b);
    const bool reverse = mc::choose (2);
    for (int m : {0, 2}) compare_files (a, b, m, "", m, reverse);
    compare_files (a, b, 3, std::string (1, LETTERS[f]), 0, reverse);
    compare_files (a, b, 3, std::string (1, LETTERS[(f + 1) % 10]), 0, reverse);
    compare_files (a, b, 3, letters (1), 0, reverse);
}
// Errors: never success, not even with reverse
MC_SCENARIO ("errors", 0, 0)
{
    const int what = mc::choose (9);
    const bool reverse = mc::choose (2), equal = mc::choose (2);
    const Cloud a = make (2, 1, "w", false, 1);
    Cloud b = a; if (!equal) { b.v[0].c ^= 1; b.v[1].x += 1; }
    files (a, b);
    Args x; if (reverse) x.push_back ("-r");
    if (what < 3)
    {
        static const Args C[3] = {{"-a", "-d"}, {"-a", "-f", "x"}, {"-d", "--field=x"}};
        x.insert (x.end (), C[what].begin (), C[what].end ());
    }
    else if (what == 3)
    {
        // an unknown field name, alone or among others, where all the fields before it are equal
        const int c = 1 + mc::choose (255);
        if (strchr (LETTERS, c)) mc::abandon ();
        const int pos = mc::choose (3);
        x.push_back ("-f"); x.push_back ((pos ? "x" : "") + std::string (1, (char) c) + (pos == 2 ? "y" : ""));
    }
    else
    {
        const std::string fn = mc::choose (2) ? "a.spoc" : "b.spoc";
        const std::string s = app::slurp (fn);
        unlink (fn.c_str ());
        if (what == 5) app::spit (fn, "");
        if (what == 6) app::spit (fn, s.substr (0, s.size () - 1));
        if (what == 7) app::spit (fn, s.substr (0, 7));
        if (what == 8) app::spit (fn, "spoc" + s.substr (4));
    }
    x.push_back ("a.spoc"); x.push_back ("b.spoc");
    const app::Result r = app::run ("diff", x);
    MC_CHECK (r.rc != 0 && !r.err.empty (), "error", "spoc_diff %s (case %d): exit %d, message '%s'", cli::join (x).c_str (), what, r.rc, r.err.c_str ());
    mc::state (mc::hash_str (cli::join (x)) + what); mc::validated ();
}
MC_MAIN
