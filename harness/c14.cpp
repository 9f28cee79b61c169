// C14: reported information is accurate in every output form
#include "cli.h"
#include <cmath>
#include <map>
using namespace model;
using cli::Args;

// ---- what the file says ----
struct Mode { bool json = false, header = true, summary = true, cls = true, metric = true, compact = true, quart = false; };
static std::string asprs (uint64_t c)
{
    static const char *N[23] = {"unclassified", "unknown", "ground", "low_veg", "med_veg", "high_veg", "building", "low_noise", "reserved", "water", "rail", "road", "reserved", "wire_guard", "wire_conductor", "transmission_tower", "wire_connector", "bridge_deck", "high_noise", "overhead_structure", "ignored", "snow", "exclusion"};
    return c < 23 ? N[c] : c < 64 ? "reserved" : c < 256 ? "user_defined" : "undefined";
}
// A number that the output must show: an integer exactly, a double up to the printed decimals
struct Num { bool integer; uint64_t u; double d; };
static Num num (uint64_t u) { return {true, u, 0}; }
static Num num (double d) { return {false, 0, d}; }
static bool shows (const std::string &text, const Num &n, double decimals)
{
    if (text.empty ()) return false;
    char *e;
    if (n.integer) { if (text.find_first_not_of ("0123456789") != std::string::npos) return false; errno = 0; return strtoull (text.c_str (), &e, 10) == n.u && !*e && !errno; }
    const double d = strtod (text.c_str (), &e);
    if (*e) return false;
    if (std::isnan (n.d)) return std::isnan (d);
    return d == n.d || std::fabs (d - n.d) <= 0.5000001 * decimals + 4e-16 * std::fabs (n.d);
}
static std::string str (const Num &n) { return n.integer ? std::to_string (n.u) : mc::fmt ("%.17g", n.d); }
// Sorted values of a field, as differences and values
struct Field
{
    std::vector<double> d; std::vector<uint64_t> u; bool integer;
    size_t n () const { return integer ? u.size () : d.size (); }
    Num at (size_t k) const { return integer ? num (u[k]) : num (d[k]); }
    Num diff (size_t b, size_t a) const { return integer ? num (u[b] - u[a]) : num (d[b] - d[a]); }
};
static Field field (const Cloud &c, int f)
{
    Field o; o.integer = f >= 3;
    for (auto &r : c.v) if (f < 3) o.d.push_back (coord (r, f)); else o.u.push_back (get_int (r, f));
    std::sort (o.d.begin (), o.d.end ()); std::sort (o.u.begin (), o.u.end ());
    return o;
}
struct Metrics { double extent, grid, voxel; bool known; };
static Metrics metrics (const Cloud &c)
{
    Metrics m {0, 0, 0, !c.v.empty ()};
    if (c.v.empty ()) return m;
    double lo[3], hi[3];
    for (int a = 0; a < 3; ++a) for (size_t k = 0; k < c.v.size (); ++k)
    {
        const double v = coord (c.v[k], a);
        if (!k || v < lo[a]) lo[a] = v;
        if (!k || v > hi[a]) hi[a] = v;
    }
    std::set<std::array<long, 3>> vox; std::set<std::array<long, 2>> grid;
    for (auto &r : c.v)
    {
        long v[3]; for (int a = 0; a < 3; ++a) { const double q = coord (r, a) - lo[a]; if (q > 1e6 || std::fabs (lo[a]) > 1e9) m.known = false; else v[a] = (long) std::floor (q); }
        if (!m.known) return m;
        vox.insert ({v[0], v[1], v[2]}); grid.insert ({v[0], v[1]});
    }
    m.extent = c.v.size () / ((hi[0] - lo[0]) * (hi[1] - lo[1])); m.grid = (double) c.v.size () / grid.size (); m.voxel = (double) c.v.size () / vox.size ();
    return m;
}

// ---- the JSON form: objects, arrays and scalars, with quoted strings ----
struct J
{
    char type = 's'; // s scalar, q quoted, o object, a array
    std::string s;
    std::map<std::string, J> o;
    std::vector<J> a;
};
struct Bad { std::string what; };
static void blank (const std::string &t, size_t &k) { while (k < t.size () && (t[k] == ' ' || t[k] == '\n' || t[k] == '\t')) ++k; }
static std::string quoted (const std::string &t, size_t &k)
{
    if (k >= t.size () || (t[k] != '\'' && t[k] != '"')) throw Bad {"quote expected"};
    const size_t e = t.find (t[k], k + 1);
    if (e == std::string::npos) throw Bad {"quote not closed"};
    const std::string s = t.substr (k + 1, e - k - 1); k = e + 1;
    return s;
}
static J parse_json (const std::string &t, size_t &k)
{
    J j; blank (t, k);
    if (k >= t.size ()) throw Bad {"value expected"};
    if (t[k] == '{')
    {
        j.type = 'o'; ++k; blank (t, k);
        if (k < t.size () && t[k] == '}') { ++k; return j; }
        while (true)
        {
            blank (t, k);
            const std::string n = quoted (t, k);
            blank (t, k); if (k >= t.size () || t[k] != ':') throw Bad {"colon expected"}; ++k;
            if (j.o.count (n)) throw Bad {"key twice: " + n};
            j.o[n] = parse_json (t, k);
            blank (t, k);
            if (k < t.size () && t[k] == ',') { ++k; continue; }
            if (k < t.size () && t[k] == '}') { ++k; return j; }
            throw Bad {"comma or end of object expected"};
        }
    }
    if (t[k] == '[')
    {
        j.type = 'a'; ++k; blank (t, k);
        if (k < t.size () && t[k] == ']') { ++k; return j; }
        while (true)
        {
            j.a.push_back (parse_json (t, k));
            blank (t, k);
            if (k < t.size () && t[k] == ',') { ++k; continue; }
            if (k < t.size () && t[k] == ']') { ++k; return j; }
            throw Bad {"comma or end of array expected"};
        }
    }
    if (t[k] == '\'' || t[k] == '"') { j.type = 'q'; j.s = quoted (t, k); return j; }
    while (k < t.size () && !strchr (",]} \n\t", t[k])) j.s += t[k++];
    if (j.s.empty ()) throw Bad {"value expected"};
    return j;
}
// ---- checks ----
static std::string who; static const Cloud *cloud;
static std::string g_out;
#define WANT(c, key, ...) do { if (!(c)) throw mc::Failure {key, who + ": " + mc::fmt (__VA_ARGS__) + "\ncloud: " + show (*cloud, 8) + "\noutput: " + (g_out.size () > 3000 ? g_out.substr (0, 3000) : g_out)}; } while (0)
static const J &member (const J &j, const std::string &n) { auto i = j.o.find (n); WANT (i != j.o.end (), "json-missing", "no '%s'", n.c_str ()); return i->second; }
static void number (const J &j, const std::string &n, const Num &v, double dec, const std::string &where)
{
    const J &x = member (j, n);
    WANT (x.type == 's' && shows (x.s, v, dec), "value", "%s %s is %s, expected %s", where.c_str (), n.c_str (), x.s.c_str (), str (v).c_str ());
}
static void judge_json (const Cloud &c, const Mode &m, bool judge_wkt)
{
    size_t k = 0; J j;
    try { j = parse_json (g_out, k); blank (g_out, k); if (k != g_out.size ()) throw Bad {"text after the object"}; }
    catch (const Bad &b) { WANT (false, "json", "not well formed: %s at byte %zu", b.what.c_str (), k); }
    WANT (j.type == 'o', "json", "not an object");
    WANT (j.o.count ("header") == m.header && j.o.count ("summary") == m.summary && j.o.count ("classifications") == m.cls && j.o.count ("metrics") == m.metric && (int) j.o.size () == m.header + m.summary + m.cls + m.metric, "sections", "wrong sections");
    const double D = 1e-15;
    if (m.header)
    {
        const J &h = member (j, "header");
        number (h, "major_version", num ((uint64_t) c.major), D, "header"); number (h, "minor_version", num ((uint64_t) c.minor), D, "header"); number (h, "total_points", num ((uint64_t) c.v.size ()), D, "header");
        WANT (member (h, "compressed").s == (c.compressed ? "true" : "false") || member (h, "compressed").s == (c.compressed ? "1" : "0"), "header", "compressed is %s", member (h, "compressed").s.c_str ());
        if (judge_wkt) WANT (member (h, "wkt").s == c.wkt, "header", "the WKT differs");
        WANT (h.o.size () == 5, "header", "other header values");
    }
    if (m.summary)
    {
        const J &s = member (j, "summary");
        const J &ex = member (s, "extra");
        WANT (ex.type == 'a' && ex.a.size () == (c.v.empty () ? 0 : c.extra), "extra", "%zu extra fields", ex.a.size ());
        WANT (s.o.size () == 10, "summary", "other fields");
        for (int f = 0; f < (int) (9 + ex.a.size ()); ++f)
        {
            const std::string n = field_name (f);
            const J &x = f < 9 ? member (s, n) : ex.a[f - 9];
            WANT (x.type == 'o', "summary", "%s is no object", n.c_str ());
            const Field v = field (c, f); const size_t z = v.n ();
            if (!z) { number (x, "size", num ((uint64_t) 0), D, n); number (x, "min", num ((uint64_t) 0), D, n); number (x, "max", num ((uint64_t) 0), D, n); continue; }
            number (x, "range", v.diff (z - 1, 0), D, n);
            if (m.quart) { const size_t q[5] = {0, z / 4, z / 2, 3 * z / 4, z - 1}; for (int i = 0; i < 5; ++i) number (x, mc::fmt ("q%d", i), v.at (q[i]), D, n); }
            else { number (x, "min", v.at (0), D, n); number (x, "max", v.at (z - 1), D, n); }
            WANT (x.o.size () == (m.quart ? 6u : 3u), "summary", "other values of %s", n.c_str ());
        }
    }
    if (m.cls)
    {
        std::map<uint64_t, uint64_t> want; for (auto &r : c.v) ++want[r.c];
        const J &x = member (j, "classifications");
        WANT (x.type == 'o' && x.o.size () == want.size (), "classes", "%zu classes, expected %zu", x.o.size (), want.size ());
        for (auto &i : x.o) { const uint64_t id = strtoull (i.first.c_str (), nullptr, 10); WANT (want.count (id) && shows (i.second.s, num (want[id]), 1), "classes", "class '%s' has count %s", i.first.c_str (), i.second.s.c_str ()); want.erase (id); }
    }
    if (m.metric)
    {
        const J &x = member (j, "metrics"); const Metrics e = metrics (c);
        WANT (x.o.size () == 3, "metrics", "%zu metrics", x.o.size ());
        if (e.known) { number (x, "extent_point_density", num (e.extent), D, "metric"); number (x, "grid_point_density", num (e.grid), D, "metric"); number (x, "voxel_point_density", num (e.voxel), D, "metric"); }
    }
}
struct Lines
{
    std::vector<std::string> v; size_t k = 0;
    explicit Lines (const std::string &s) { std::string l; for (char c : s) if (c == '\n') { v.push_back (l); l.clear (); } else l += c; WANT (l.empty (), "text", "the last line is not complete"); }
    std::string next () { WANT (k < v.size (), "text", "lines are missing"); return v[k++]; }
};
static void line_number (const std::string &line, const std::string &label, const Num &n, double dec, const std::string &where)
{
    WANT (line.rfind (label + "\t", 0) == 0, "text", "%s: expected %s in '%s'", where.c_str (), label.c_str (), line.c_str ());
    WANT (shows (line.substr (label.size () + 1), n, dec), "value", "%s: '%s', expected %s", where.c_str (), line.c_str (), str (n).c_str ());
}
// Takes a number and the separator behind it from the front of a line
static void take (std::string &l, const std::string &sep, const Num &n, const std::string &where)
{
    const size_t e = sep.empty () ? l.size () : l.find (sep);
    WANT (e != std::string::npos, "text", "%s: expected '%s' in '%s'", where.c_str (), sep.c_str (), l.c_str ());
    WANT (shows (l.substr (0, e), n, 0.001), "value", "%s: '%s', expected %s", where.c_str (), l.substr (0, e).c_str (), str (n).c_str ());
    l.erase (0, e + sep.size ());
}
static void judge_text (const Cloud &c, const Mode &m)
{
    std::string rest = g_out;
    if (m.header)
    {
        // The WKT may contain anything
        const std::string h = mc::fmt ("major_version\t%d\nminor_version\t%d\nogc_wkt\t'", c.major, c.minor) + c.wkt + mc::fmt ("'\ntotal_points\t%zu\ncompressed\t%s\n", c.v.size (), c.compressed ? "true" : "false");
        WANT (rest.rfind (h, 0) == 0, "header", "the header is not reported correctly");
        rest.erase (0, h.size ());
    }
    Lines l (rest);
    if (m.summary)
        for (int f = 0; f < (int) (9 + (c.v.empty () ? 0 : c.extra)); ++f)
        {
            const std::string n = f < 9 ? field_name (f) : mc::fmt ("extra_%d", f - 9);
            const Field v = field (c, f); const size_t z = v.n (), q[5] = {0, z / 4, z / 2, 3 * z / 4, z ? z - 1 : 0};
            if (!z) { if (m.compact) continue; line_number (l.next (), n, num ((uint64_t) 0), 1, n); line_number (l.next (), "size", num ((uint64_t) 0), 1, n); line_number (l.next (), "min", num ((uint64_t) 0), 1, n); line_number (l.next (), "max", num ((uint64_t) 0), 1, n); continue; }
            if (m.compact)
            {
                std::string s = l.next ();
                WANT (s.rfind (n + "\trange=", 0) == 0, "text", "expected %s in '%s'", n.c_str (), s.c_str ());
                s.erase (0, n.size () + 7);
                take (s, ", ", v.diff (z - 1, 0), n + " range");
                if (m.quart)
                {
                    take (s, " + ", v.at (0), n + " q0");
                    for (int i = 1; i < 5; ++i) take (s, i < 4 ? " + " : " = ", v.diff (q[i], q[i - 1]), mc::fmt ("%s step %d", n.c_str (), i));
                    take (s, "", v.at (z - 1), n + " q4");
                }
                else
                {
                    WANT (s.rfind ("min=", 0) == 0, "text", "expected min in '%s'", s.c_str ()); s.erase (0, 4);
                    take (s, ", ", v.at (0), n + " min");
                    WANT (s.rfind ("max=", 0) == 0, "text", "expected max in '%s'", s.c_str ()); s.erase (0, 4);
                    take (s, "", v.at (z - 1), n + " max");
                }
                continue;
            }
            line_number (l.next (), n, num ((uint64_t) z), 1, n);
            line_number (l.next (), "range", v.diff (z - 1, 0), 0.001, n);
            if (m.quart) for (int i = 0; i < 5; ++i) line_number (l.next (), mc::fmt ("q%d", i), v.at (q[i]), 0.001, n);
            else { line_number (l.next (), "min", v.at (0), 0.001, n); line_number (l.next (), "max", v.at (z - 1), 0.001, n); }
        }
    if (m.cls)
    {
        std::map<uint64_t, uint64_t> want; for (auto &r : c.v) ++want[r.c];
        const size_t total = want.size ();
        for (size_t i = 0; i < total; ++i)
        {
            const std::string s = l.next ();
            WANT (s.rfind ("cls_", 0) == 0, "classes", "a class is expected: '%s'", s.c_str ());
            const size_t t = s.find ('\t'), u = s.find ('\t', t + 1);
            WANT (u != std::string::npos && t >= 7, "classes", "a class is expected: '%s'", s.c_str ());
            const uint64_t id = strtoull (s.c_str () + 4, nullptr, 10);
            WANT (want.count (id) && shows (s.substr (t + 1, u - t - 1), num (want[id]), 1) && s.substr (u + 1) == asprs (id), "classes", "wrong: '%s', expected %llu records, %s", s.c_str (), (unsigned long long) (want.count (id) ? want[id] : 0), asprs (id).c_str ());
            want.erase (id);
        }
    }
    if (m.metric)
    {
        const Metrics e = metrics (c);
        static const char *N[3] = {"extent_point_density", "grid_point_density", "voxel_point_density"}, *U[3] = {"pts/unit^2", "pts/unit^2", "pts/unit^3"};
        const double v[3] = {e.extent, e.grid, e.voxel};
        for (int k = 0; k < 3; ++k)
        {
            std::string s = l.next (); const size_t t = s.rfind ('\t');
            WANT (t != std::string::npos && s.substr (t + 1) == U[k], "metrics", "unit: '%s'", s.c_str ());
            if (e.known) line_number (s.substr (0, t), N[k], num (v[k]), 1e-9, "metric"); else WANT (s.rfind (N[k], 0) == 0, "metrics", "'%s'", s.c_str ());
        }
    }
    WANT (l.k == l.v.size (), "text", "more lines than expected");
}
static void judge (const Cloud &c, const Mode &m, const Args &a, bool judge_wkt = true)
{
    const app::Result r = app::run ("info", a, encode (c));
    who = "spoc_info " + cli::join (a); cloud = &c; g_out = r.out;
    WANT (r.rc == 0, "fails", "exit %d: %s", r.rc, r.err.c_str ());
    if (m.json) judge_json (c, m, judge_wkt); else judge_text (c, m);
    mc::state (r.out); mc::validated ();
}
// The four forms and quartiles
static void all_forms (const Cloud &c, bool judge_wkt = true)
{
    const int k = mc::choose (8);
    Mode m; Args a;
    if (k & 1) { m.json = true; a.push_back ("-j"); if (c.wkt.find ('\'') != std::string::npos) mc::abandon (); }
    if (k & 2) { m.compact = false; a.push_back ("--compact"); }
    if (k & 4) { m.quart = true; a.push_back ("-q"); }
    judge (c, m, a, judge_wkt);
}
// Every boundary value in every cell
MC_SCENARIO ("fields", 1, 2)
{
    if (mc::is_asan && !mc::thorough ()) mc::abandon ();
    Cloud c = make (1 + mc::choose (3), mc::choose_from (std::vector<size_t> {0, 2}), "w", false, mc::choose (2));
    deviate (c, true);
    all_forms (c);
}
// Every sequence of values of one field: minimum, maximum and quartiles anywhere
MC_SCENARIO ("orders", 0, 0)
{
    if (mc::is_asan && !mc::thorough ()) mc::abandon ();
    const int f = mc::choose (11);
    const int n = 1 + mc::choose (mc::thorough () ? 6 : 5), letters = n < 4 ? 5 : 3;
    Cloud c = make (n, 2, "", false, 1);
    static const std::vector<double> D {0.5, -2.25, 100.125, 1e-3, 7};
    static const std::vector<uint64_t> I {5, 0, 65535, 1, 300};
    for (auto &r : c.v) { const int k = mc::choose (letters); if (f < 3) coord (r, f) = D[k]; else set_int (r, f, I[k]); }
    Mode m; Args a {"-a", "-l", "-m"}; m.header = m.cls = m.metric = false;
    const int k = mc::choose (8);
    if (k & 1) { m.json = true; a.push_back ("-j"); }
    if (k & 2) { m.compact = false; a.push_back ("-c"); }
    if (k & 4) { m.quart = true; a.push_back ("-q"); }
    judge (c, m, a);
}
// Any number of records
MC_SCENARIO ("sizes", 0, 0)
{
    if (mc::is_asan && !mc::thorough ()) mc::abandon ();
    static const std::vector<size_t> N {1000, 1001, 1002, 1003, 20001, 70003};
    const int k = mc::choose (mc::thorough () ? 406 : 156);
    const size_t n = k < 6 ? N[k] : k - 6;
    Cloud c = make (n, 2, "w", n % 7 == 0, 1);
    const int scramble = mc::choose (2);
    for (size_t i = 0; i < n; ++i)
    {
        Rec &r = c.v[i]; const size_t s = scramble ? (i * 7919) % n : n - 1 - i;
        r.x = 0.25 * s; r.y = -0.5 * s; r.z = s * 1.5; r.c = n > 50000 ? 2 + (s < 3) : s % 300; r.p = 3 * s; r.i = s; r.r = 60000 - s; r.g = s / 2; r.b = 7; r.e[0] = s * 1000000007ull; r.e[1] = ~(uint64_t) s;
    }
    all_forms (c);
}
// The lowest and the highest values are anywhere
MC_SCENARIO ("anywhere", 0, 0)
{
    if (mc::is_asan) mc::abandon ();
    const size_t n = mc::choose_from (std::vector<size_t> {9, 66, 260}), low = mc::choose (n), high = n - 1 - low;
    if (low == high) mc::abandon ();
    Cloud c = make (n, 1, "w", false, 1);
    for (size_t k = 0; k < n; ++k) for (int f = 0; f < 10; ++f)
    {
        const int v = k == low ? 1 : k == high ? 900 : 300 + (k * 7919 + f) % 17;
        if (f < 3) coord (c.v[k], f) = v * 0.25 - 100; else set_int (c.v[k], f, f == 3 && k != low && k != high ? 2 : v);
    }
    Mode m; Args a;
    const int k = mc::choose (4);
    if (k & 1) { m.json = true; a.push_back ("-j"); }
    if (k & 2) { m.quart = true; a.push_back ("-q"); }
    judge (c, m, a);
}
// Every class, every sequence of classes
MC_SCENARIO ("each-class", 0, 0)
{
    if (mc::is_asan && !mc::thorough ()) mc::abandon ();
    const int k = mc::choose (1010);
    static const std::vector<uint64_t> L {10000, 65535, 65536, 100000, 2147483647, 2147483648u, 4294967295u, 4294967294u, 258, 1000};
    const uint64_t id = k < 1000 ? k : L[k - 1000];
    Cloud c = make (1 + mc::choose (3), 0, "", false, 1);
    for (auto &r : c.v) r.c = id;
    if (c.v.size () == 3) c.v[1].c = id ^ 1;
    all_forms (c);
}
MC_SCENARIO ("classes", 0, 0)
{
    if (mc::is_asan && !mc::thorough ()) mc::abandon ();
    const int n = mc::choose (mc::thorough () ? 6 : 5);
    Cloud c = make (n, 0, "", false, 1);
    static const uint32_t L[5] = {2, 0, 12, 200, 1000};
    for (auto &r : c.v) r.c = L[mc::choose (n < 5 ? 5 : 4)];
    all_forms (c);
}
// Densities: every placement on a lattice
MC_SCENARIO ("densities", 0, 0)
{
    if (mc::is_asan && !mc::thorough ()) mc::abandon ();
    const int n = mc::choose (mc::thorough () ? 5 : 4);
    const double unit = mc::choose_from (std::vector<double> {0.5, 1, 0.75}), off = mc::choose_from (std::vector<double> {0, -3.25});
    Cloud c = make (n, 0, "", false, 1);
    for (auto &r : c.v) { const int k = mc::choose (n < 4 ? 18 : 8); r.x = unit * (k % 3) + off; r.y = unit * (k / 3 % 3) - off; r.z = unit * (k / 9 * 2) + off; }
    Mode m; Args a {"-a", "-s", "--classification-info"}; m.header = m.summary = m.cls = false;
    if (mc::choose (2)) { m.json = true; a.push_back ("--json"); }
    judge (c, m, a);
}
// Every combination of the options, in both styles, once or twice
MC_SCENARIO ("toggles", 0, 0)
{
    const int mask = mc::choose (128), style = mc::choose (mc::is_asan ? 2 : 4), n = mc::choose (mc::is_asan ? 2 : 3);
    static const char *S[7] = {"-j", "-a", "-s", "-l", "-m", "-c", "-q"}, *L[7] = {"--json", "--header-info", "--summary-info", "--classification-info", "--metric-info", "--compact", "--quartiles"};
    Mode m; bool *t[7] = {&m.json, &m.header, &m.summary, &m.cls, &m.metric, &m.compact, &m.quart};
    Args a; std::string group = "-";
    for (int k = 0; k < 7; ++k)
    {
        if (mask >> k & 1) { *t[k] = !*t[k]; if (style == 0) a.push_back (S[k]); else if (style == 1) a.insert (a.begin (), L[k]); else if (style == 2) group += S[k][1]; else { a.push_back (S[k]); a.push_back (L[k]); a.push_back (S[k]); } }
        else if (style == 3) { a.push_back (L[k]); a.push_back (S[k]); }
    }
    if (style == 2 && mask) a.push_back (group);
    judge (make (n, 1, "wkt", false, 1), m, a);
}
// Metadata and shapes
MC_SCENARIO ("shapes", 0, 0)
{
    const int kind = mc::choose (3);
    Cloud c;
    if (kind == 0) c = make (mc::choose (3), 1, wkt_of_length (mc::choose_from (std::vector<size_t> {0, 1, 38, 255, 256, 1000, 65535})), !mc::is_asan && mc::choose (2), 1);
    else if (kind == 1) { if (mc::is_asan && !mc::thorough ()) mc::abandon (); c = make (2, mc::choose (256), "w", false, 1); }
    else { static const std::vector<std::string> W {"GEOGCS[\"WGS 84\"]", "a b c", std::string ("a\0b", 3), "tab\there", "new\nline", "it's", "\"", "\\", "{ }", "%s"}; c = make (2, 1, mc::choose_from (W), false, 1); }
    // A quote in the WKT is printed as it is, which ends the string in the JSON form
    for (char &ch : c.wkt) if (kind == 0 && ch == '\'') ch = '"';
    all_forms (c);
}
// The same files several times, many files
MC_SCENARIO ("again", 0, 0)
{
    app::clean ();
    const int kind = mc::choose (2), k = mc::choose (4), n = kind ? mc::choose_from (std::vector<int> {10, 65, 300}) : 2 + mc::choose (3);
    if (kind && mc::is_asan) mc::abandon ();
    Args opts; if (k & 1) opts.push_back ("-j"); if (k & 2) opts.push_back ("-c");
    std::string text[3], want; Args a = opts;
    for (int i = 0; i < 3; ++i)
    {
        const std::string d = encode (make (i, 1, "w", false, i));
        text[i] = app::run ("info", opts, d).out;
        app::spit (mc::fmt ("f%d.spoc", i), d);
    }
    for (int i = 0; i < n; ++i) { const int f = kind ? i % 3 : mc::choose (2) * 2; a.push_back (mc::fmt ("f%d.spoc", f)); want += text[f]; }
    const app::Result r = app::run ("info", a);
    MC_CHECK (r.rc == 0 && r.out == want, "files", "spoc_info %s: exit %d, the output differs from that of the single files:\n%s\nexpected:\n%s", cli::join (a).c_str (), r.rc, r.out.c_str (), want.c_str ());
    mc::validated ();
}
// Several files: one after the other
MC_SCENARIO ("files", 0, 0)
{
    app::clean ();
    const int n = 1 + mc::choose (3), k = mc::choose (4);
    Args a; if (k & 1) a.push_back ("-j"); if (k & 2) a.push_back ("-c");
    const Args opts = a; std::string want;
    for (int i = 0; i < n; ++i)
    {
        const Cloud c = make (mc::choose (3), mc::choose (2), mc::fmt ("w%d", i), false, 1);
        want += app::run ("info", opts, encode (c)).out;
        const std::string fn = mc::fmt ("f%d.spoc", i);
        app::spit (fn, encode (c)); a.push_back (fn);
    }
    const app::Result r = app::run ("info", a);
    MC_CHECK (r.rc == 0 && r.out == want, "files", "spoc_info %s: exit %d, the output differs from that of the single files:\n%s\nexpected:\n%s", cli::join (a).c_str (), r.rc, r.out.c_str (), want.c_str ());
    mc::validated ();
}
MC_MAIN
