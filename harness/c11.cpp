// C11: field text export and import are exact inverses and touch only that field
#include "cli.h"
#include <cmath>
using namespace model;
using cli::Args;

static std::vector<std::string> lines (const std::string &s)
{
    std::vector<std::string> v; std::string l;
    for (char c : s) if (c == '\n') { v.push_back (l); l.clear (); } else l += c;
    if (!l.empty ()) v.push_back (l + " (no newline)");
    return v;
}
static Args get_args (int style, const std::string &f) { return style == 0 ? Args {"-g", f} : style == 1 ? Args {"--get-field=" + f} : style == 2 ? Args {"-g" + f} : Args {"--get-field", f}; }
static Args set_args (int style, const std::string &f, const std::string &fn)
{
    if (style == 0) return {"-s", f, "--field-filename=" + fn};
    if (style == 1) return {"--field-filename", fn, "--set-field=" + f};
    if (style == 2) return {"-s" + f, "-f", fn};
    return {"--set-field", f, "--field-filename=" + fn};
}
// The exported text of a field, checked against the cloud
static std::string get (const Cloud &in, int f, int style = 0)
{
    const Args a = get_args (style, field_name (f));
    const app::Result r = app::run ("tool", a, encode (in));
    const std::string who = "spoc_tool " + cli::join (a);
    MC_CHECK (r.rc == 0, "get-fails", "%s: exit %d: %s\ninput: %s", who.c_str (), r.rc, r.err.c_str (), show (in).c_str ());
    const auto l = lines (r.out);
    MC_CHECK (l.size () == in.v.size (), "get-count", "%s: %zu lines for %zu records", who.c_str (), l.size (), in.v.size ());
    for (size_t k = 0; k < l.size (); ++k)
    {
        if (f >= 3) { MC_CHECK (l[k] == std::to_string (get_int (in.v[k], f)), "get-value", "%s: record %zu: '%s', expected %llu", who.c_str (), k, l[k].c_str (), (unsigned long long) get_int (in.v[k], f)); continue; }
        char *end = nullptr;
        const double d = strtod (l[k].c_str (), &end), w = coord (in.v[k], f);
        MC_CHECK (!l[k].empty () && !*end && (std::isnan (w) ? std::isnan (d) : bits (d) == bits (w)), "get-value", "%s: record %zu: '%s', expected %.17g", who.c_str (), k, l[k].c_str (), w);
    }
    mc::state (r.out);
    return r.out;
}
static app::Result try_set (const Cloud &in, const std::string &field, const std::string &text, int style = 0)
{
    app::spit ("values.txt", text);
    return app::run ("tool", set_args (style, field, "values.txt"), encode (in));
}
static Cloud set (const Cloud &in, int f, const std::string &text, int style = 0)
{
    const app::Result r = try_set (in, field_name (f), text, style);
    MC_CHECK (r.rc == 0, "set-fails", "spoc_tool --set-field=%s: exit %d: %s\ninput: %s\nvalues: %s", field_name (f).c_str (), r.rc, r.err.c_str (), show (in).c_str (), text.substr (0, 300).c_str ());
    return cli::must_parse (r.out, "spoc_tool --set-field=" + field_name (f));
}
static void same_cloud (const Cloud &want, const Cloud &got, const char *key, int f, const std::string &text)
{
    const std::string d = differ (cli::norm (want), cli::norm (got));
    MC_CHECK (d.empty (), key, "spoc_tool --set-field=%s: %s\nexpected: %s\noutput:   %s\nvalues: %s", field_name (f).c_str (), d.c_str (), show (want).c_str (), show (got).c_str (), text.substr (0, 300).c_str ());
    mc::state (hash (got)); mc::validated ();
}
static void round_trip (const Cloud &in, int f, int style)
{
    const std::string text = get (in, f, style);
    for (auto &r : in.v) if (f < 3 && !std::isfinite (coord (r, f))) return; // cannot be read back
    same_cloud (in, set (in, f, text, style), "not-identity", f, text);
    // The text carries the whole field
    Cloud blank = in;
    for (auto &r : blank.v) { if (f < 3) coord (r, f) = 0.0; else set_int (r, f, 0); }
    same_cloud (in, set (blank, f, text, style), "not-restored", f, text);
}
// Every field, every boundary value anywhere
MC_SCENARIO ("fields", 1, 2)
{
    if (mc::is_asan && !mc::thorough ()) mc::abandon ();
    const size_t extra = mc::choose_from (std::vector<size_t> {0, 2});
    const int f = mc::choose (9 + extra);
    Cloud in = make (2, extra, "w", false, mc::choose (2));
    deviate (in);
    round_trip (in, f, 0);
}
// Every bit of every field
MC_SCENARIO ("bits", 0, 0)
{
    if (mc::is_asan && !mc::thorough ()) mc::abandon ();
    const int f = mc::choose (11);
    const int b = mc::choose (bits_of (f)), other = mc::choose (3);
    Cloud in = make (3, 2, "", false, other);
    const uint64_t m = 1ull << b;
    if (f < 3) for (auto &r : in.v) coord (r, f) = from_bits (bits (other == 2 ? 1.0 / 3 : coord (r, f)) ^ m);
    else for (auto &r : in.v) set_int (r, f, get_int (r, f) ^ m);
    round_trip (in, f, mc::choose (4));
}
// Numbers that need all their digits: neighbours of powers of two and ten
MC_SCENARIO ("digits", 0, 0)
{
    if (mc::is_asan && !mc::thorough ()) mc::abandon ();
    const int f = mc::choose (3);
    const int base = mc::choose (2), e = mc::choose (base ? 2000 : 600), ulp = mc::choose (mc::thorough () ? 9 : 5) - (mc::thorough () ? 4 : 2), sign = mc::choose (2);
    const double p = base ? std::ldexp (1.0, e - 1050) : std::pow (10.0, e - 300);
    if (p == 0 || !std::isfinite (p)) mc::abandon ();
    Cloud in = make (1, 0, "", false, 1);
    coord (in.v[0], f) = from_bits ((bits (p) + ulp) | (uint64_t) sign << 63);
    if (!std::isfinite (coord (in.v[0], f))) mc::abandon ();
    round_trip (in, f, 1);
}
// Shapes
MC_SCENARIO ("shapes", 0, 0)
{
    const int kind = mc::choose (3);
    Cloud in; int f;
    if (kind == 0) { in = make (mc::choose (mc::thorough () ? 200 : 70), mc::choose (2), wkt_of_length (mc::choose (2) * 1000), false, 1); f = mc::choose (3) * 4; if (f >= (int) (9 + in.extra)) f = 3; }
    else if (kind == 1) { in = make (mc::choose_from (std::vector<size_t> {1, 3}), mc::choose (256), "w", false, 2); f = mc::choose (2) && in.extra ? 9 + in.extra - 1 : 4; }
    else { if (mc::is_asan) mc::abandon (); in = make (mc::choose_from (std::vector<size_t> {0, 1, 2, 100, 3001, 20001, 70001}), mc::choose (3), "w", mc::choose (2), 1); f = mc::choose (9 + in.extra); }
    round_trip (in, f, mc::choose (2));
}
// Import: every sequence of values into every field
MC_SCENARIO ("import", 0, 0)
{
    if (mc::is_asan && !mc::thorough ()) mc::abandon ();
    const size_t extra = mc::choose (3);
    const int f = mc::choose (9 + extra);
    const int n = 1 + mc::choose (3);
    Cloud in = make (n, extra, "wkt", false, 2), want = in;
    std::string text;
    static const std::vector<std::string> D {"0", "-1", "0.1", "1e300", "-2.5e-300", "123456789.123456789", "9007199254740993", "-0.0", "00012.50"};
    const int limit = n < 3 ? 9 : 4;
    for (auto &r : want.v)
    {
        if (f < 3) { const std::string t = D[mc::choose (limit)]; coord (r, f) = strtod (t.c_str (), nullptr); text += t; }
        else { const auto &I = ints_of (f); const uint64_t u = I[mc::choose (std::min<int> (limit, I.size ()))]; set_int (r, f, u); text += std::to_string (u); }
        text += '\n';
    }
    same_cloud (want, set (in, f, text), "import", f, text);
}
// Extra fields that do not exist yet
MC_SCENARIO ("new-extra", 0, 0)
{
    const size_t extra = mc::choose_from (std::vector<size_t> {0, 1, 2, 7, 254, 255});
    const size_t j = mc::choose_from (std::vector<size_t> {0, 1, 2, 3, 6, 7, 8, 100, 253, 254, 255, 256, 1000});
    const int n = 1 + mc::choose (3);
    const bool compressed = !mc::is_asan && mc::choose (2);
    Cloud in = make (n, extra, "w", compressed, 2), want = in;
    std::string text;
    want.extra = std::max (extra, j + 1);
    for (size_t k = 0; k < want.v.size (); ++k) { want.v[k].e.resize (want.extra); want.v[k].e[j] = 5000000000ull + k; text += std::to_string (5000000000ull + k) + "\n"; }
    const std::string f = "e" + std::to_string (j);
    if (want.extra > 255)
    {
        const app::Result r = try_set (in, f, text);
        MC_CHECK (r.rc != 0 && !r.err.empty (), "too-many", "spoc_tool --set-field=%s: exit %d", f.c_str (), r.rc);
        MC_CHECK (!parse (r.out) || parse (r.out)->c.v.empty (), "too-many", "spoc_tool --set-field=%s outputs a cloud", f.c_str ());
        mc::validated ();
        return;
    }
    same_cloud (want, set (in, 9 + j, text), "new-extra", 9 + j, text);
}
// Too few values, unparsable values
MC_SCENARIO ("bad-values", 0, 0)
{
    const size_t n = 1 + mc::choose (3);
    const int f = mc::choose (12); // e2 is new
    const size_t bad = mc::choose (n);
    static const std::vector<std::string> B {"", "abc", "-", "x1", "--5", "e", "#", ".", "nan", "'1'", ",1"};
    const std::string t = mc::choose_from (B);
    const bool stop = mc::choose (2);
    Cloud in = make (n, 2, "w", false, 1);
    std::string text;
    for (size_t k = 0; k < n; ++k)
    {
        if (k == bad) { text += t; if (stop) break; if (!t.empty ()) text += '\n'; }
        else text += std::to_string (10 + k) + "\n";
    }
    const app::Result r = try_set (in, field_name (f), text, mc::choose (4));
    MC_CHECK (r.rc != 0 && !r.err.empty () && r.out.empty (), "bad-values", "spoc_tool --set-field=%s with %zu records and the values '%s': exit %d, %zu bytes out", field_name (f).c_str (), n, text.c_str (), r.rc, r.out.size ());
    mc::validated ();
}
// Values of which only the beginning can be parsed
MC_SCENARIO ("half-values", 0, 0)
{
    const size_t n = 2 + mc::choose (3);
    const int f = mc::choose (12);
    const size_t bad = mc::choose (n - 1); // what follows the last value does not matter
    static const std::vector<std::string> B {"5x", "1,2", "7;", "3e", "2e+", "1.5", "1.0", "2.", "1e3", "3E1"};
    const std::string t = B[mc::choose (f < 3 ? 5 : (int) B.size ())];
    Cloud in = make (n, 2, "w", false, 1);
    std::string text;
    for (size_t k = 0; k < n; ++k) text += (k == bad ? t : std::to_string (10 + k)) + "\n";
    const app::Result r = try_set (in, field_name (f), text, mc::choose (4));
    MC_CHECK (r.rc != 0 && !r.err.empty () && r.out.empty (), "bad-values", "spoc_tool --set-field=%s with %zu records and the values '%s': exit %d, %zu bytes out", field_name (f).c_str (), n, text.c_str (), r.rc, r.out.size ());
    mc::validated ();
}
// Fields and files that do not exist
MC_SCENARIO ("refused", 0, 0)
{
    const int what = mc::choose (4);
    const size_t n = 1 + mc::choose (2);
    const Cloud in = make (n, 2, "w", false, 1);
    static const std::vector<std::string> F {"q", "", "xy", "X", "C", "e", "ex", "e-1", "e1x", "1", "e 1", "cc", "class", ",c", "-1"};
    std::string text; for (size_t k = 0; k < n; ++k) text += "1\n";
    app::clean ();
    app::Result r; std::string who;
    if (what == 0)
    {
        static const std::vector<std::string> G {"e2", "e3", "e254", "e255", "e1000"};
        const int k = mc::choose (F.size () + G.size ());
        const std::string f = k < (int) F.size () ? F[k] : G[k - F.size ()];
        who = "--get-field=" + f;
        r = app::run ("tool", {who}, encode (in));
        MC_CHECK (r.out.empty (), "refused", "spoc_tool %s: %zu bytes of output", who.c_str (), r.out.size ());
    }
    else if (what == 1)
    {
        const std::string f = mc::choose_from (F);
        who = "--set-field=" + f;
        r = try_set (in, f, text, 1);
    }
    else if (what == 2) { who = "--set-field=c --field-filename=missing"; r = app::run ("tool", {"--set-field=c", "--field-filename=missing"}, encode (in)); }
    else { who = "--set-field=c"; r = app::run ("tool", {"--set-field=c"}, encode (in)); }
    MC_CHECK (r.rc != 0 && !r.err.empty (), "refused", "spoc_tool %s: exit %d, %zu bytes out", who.c_str (), r.rc, r.out.size ());
    MC_CHECK (r.out.empty (), "refused", "spoc_tool %s: %zu bytes of output", who.c_str (), r.out.size ());
    mc::validated ();
}
// One field does not disturb another: export all, import all into a blank cloud in any order
MC_SCENARIO ("rebuild", 0, 0)
{
    if (mc::is_asan && !mc::thorough ()) mc::abandon ();
    const size_t extra = mc::choose (4), n = 1 + mc::choose (3);
    const int rotate = mc::choose (9 + extra), dir = mc::choose (2), total = 9 + extra;
    Cloud in = make (n, extra, "w", false, 2), c = make (n, 0, "w", false, 0);
    for (auto &r : in.v) for (int a = 0; a < 3; ++a) if (!std::isfinite (coord (r, a))) coord (r, a) = 0.1;
    for (int k = 0; k < total; ++k)
    {
        const int f = (rotate + (dir ? k : total - k)) % total;
        const std::string text = get (in, f);
        c = set (c, f, text);
    }
    same_cloud (in, c, "rebuild", 0, "");
}
MC_MAIN
