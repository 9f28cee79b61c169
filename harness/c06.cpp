// C06: class and coordinate filters keep exactly the selected records, in order
#include "cli.h"
using namespace model;
using cli::Args;

static const std::vector<uint32_t> &classes () { static const std::vector<uint32_t> v {0, 1, 2, 17, 258, 65538, 2147483647u}; return v; }
static Cloud base (size_t n, size_t extra, int pattern, bool compressed) { return make (n, extra, "some wkt", compressed, pattern); }

struct Coord { int axis; char op; double v; std::string text; };
struct Opt
{
    std::set<uint32_t> keep, remove;
    std::vector<Coord> coord; // at most one
};
static Cloud apply (const Cloud &in, const Opt &o)
{
    Cloud c = in; c.v.clear ();
    for (auto &r : in.v)
    {
        if (!o.keep.empty () && !o.keep.count (r.c)) continue;
        if (o.remove.count (r.c)) continue;
        bool out = false;
        for (auto &k : o.coord) out = out || (k.op == '<' ? coord (r, k.axis) < k.v : coord (r, k.axis) > k.v);
        if (!out) c.v.push_back (r);
    }
    return c;
}
// Option styles
static void add (Args &a, const char *shortopt, const char *longopt, const std::string &v, int style)
{
    if (style == 0) { a.push_back (shortopt); a.push_back (v); }
    else if (style == 1) a.push_back (std::string (longopt) + "=" + v);
    else if (style == 2) { a.push_back (longopt); a.push_back (v); }
    else a.push_back (std::string (shortopt) + v);
}
static void run (const Cloud &in, const Args &args, const Opt &o)
{
    const Cloud want = apply (in, o);
    const Cloud got = cli::cloud ("filter", args, encode (in));
    cli::expect (got, want, "spoc_filter " + cli::join (args), in, "selection");
    mc::state (hash (got) * 3 + mc::hash_str (cli::join (args))); mc::validated ();
}
static std::set<uint32_t> subset (int mask) { std::set<uint32_t> s; for (size_t k = 0; k < classes ().size (); ++k) if (mask >> k & 1) s.insert (classes ()[k]); return s; }

// Every sequence of classes, every keep and remove set (small)
MC_SCENARIO ("classes", 0, 0)
{
    const int n = mc::choose (mc::thorough () ? 5 : 4);
    const int letters = mc::thorough () || n < 3 ? 4 : 3;
    static const uint32_t L[4] = {0, 1, 2, 258};
    Cloud in = base (n, n == 2 ? 2 : 0, 1, false);
    for (auto &r : in.v) r.c = L[mc::choose (letters)];
    Opt o; Args a;
    const int km = mc::choose (1 << letters), rm = mc::choose (1 << letters);
    if (!mc::thorough () && n == 3 && km && rm && (km & rm) != 0) mc::abandon ();
    if (mc::is_asan && n > 2) mc::abandon ();
    for (int k = letters - 1; k >= 0; --k) if (km >> k & 1) { o.keep.insert (L[k]); add (a, "-k", "--keep-class", std::to_string (L[k]), k); }
    for (int k = 0; k < letters; ++k) if (rm >> k & 1) { o.remove.insert (L[k]); add (a, "-r", "--remove-class", std::to_string (L[k]), k); }
    run (in, a, o);
}
// Every set of the full class alphabet
MC_SCENARIO ("class-sets", 0, 0)
{
    if (mc::is_asan && !mc::thorough ()) mc::abandon ();
    Cloud in = base (16, 1, 1, false);
    for (size_t k = 0; k < in.v.size (); ++k) in.v[k].c = k < 14 ? classes ()[(k * 3) % 7] : k == 14 ? 0x80000000u : 0xffffffffu;
    const int mask = mc::choose (128);
    const bool keep = mc::choose (2);
    const int style = mc::choose (4);
    Opt o; Args a;
    (keep ? o.keep : o.remove) = subset (mask);
    for (uint32_t c : subset (mask)) add (a, keep ? "-k" : "-r", keep ? "--keep-class" : "--remove-class", std::to_string (c), style);
    run (in, a, o);
}
// One class at a time: every class from 0 to 255 (512)
MC_SCENARIO ("each-class", 0, 0)
{
    if (mc::is_asan && !mc::thorough ()) mc::abandon ();
    const int c = mc::choose (mc::thorough () ? 512 : 258);
    const bool keep = mc::choose (2);
    Cloud in = base (600, 0, 1, false);
    for (size_t k = 0; k < in.v.size (); ++k) in.v[k].c = k;
    Opt o; (keep ? o.keep : o.remove).insert (c);
    run (in, {keep ? "-k" : "-r", std::to_string (c)}, o);
}
// Keep and remove of the same set partition the input, and filtering again changes nothing
MC_SCENARIO ("partition", 0, 0)
{
    const int n = mc::choose (mc::thorough () ? 9 : 7);
    Cloud in = base (n, 1, 2, false);
    const int letters = mc::is_asan ? 2 : 3;
    for (auto &r : in.v) r.c = classes ()[mc::choose (n > 5 ? 2 : letters)];
    const int mask = 1 + mc::choose (3);
    if (mc::is_asan && n > 4) mc::abandon ();
    Args k, r;
    for (uint32_t c : subset (mask)) { k.push_back ("-k"); k.push_back (std::to_string (c)); r.push_back ("-r"); r.push_back (std::to_string (c)); }
    const Cloud kept = cli::cloud ("filter", k, encode (in)), removed = cli::cloud ("filter", r, encode (in));
    size_t a = 0, b = 0;
    for (auto &q : in.v)
    {
        if (a < kept.v.size () && same (kept.v[a], q)) ++a;
        else if (b < removed.v.size () && same (removed.v[b], q)) ++b;
        else MC_CHECK (false, "partition", "record %s is in neither part (or out of order): %s", show (q).c_str (), show (in).c_str ());
    }
    MC_CHECK (a == kept.v.size () && b == removed.v.size (), "partition", "surplus records: %s", show (in).c_str ());
    cli::expect (cli::cloud ("filter", k, encode (kept)), kept, "keeping twice", kept, "idempotent");
    cli::expect (cli::cloud ("filter", r, encode (removed)), removed, "removing twice", removed, "idempotent");
    mc::state (hash (in)); mc::validated ();
}
static const std::vector<double> &cvals ()
{
    static const double inf = 1.0 / 0.0;
    static const std::vector<double> v {0.0, -0.0, 10, from_bits (0x4024000000000001ull), from_bits (0x4023ffffffffffffull), -2.5, 1e300, -inf, inf, from_bits (0x7ff8000000000000ull), from_bits (1)};
    return v;
}
struct T { const char *s; double v; };
static const std::vector<T> &thresholds ()
{
    static const std::vector<T> v {{"10", 10}, {"0", 0}, {"-0", 0}, {"-2.5", -2.5}, {"1e300", 1e300}, {"10.000000", 10}, {"+10", 10}, {".5", .5}, {"-1e-3", -1e-3}, {"1E1", 10}};
    return v;
}
// Every coordinate value, operator, axis, and threshold
MC_SCENARIO ("coords", 0, 0)
{
    const int n = 1 + mc::choose (mc::is_asan ? 1 : 2);
    Cloud in = base (n, 1, 1, false);
    const int axis = mc::choose (3);
    for (auto &r : in.v)
    {
        r.x = -7; r.y = 3; r.z = 20;
        coord (r, axis) = n == 2 && !mc::thorough () ? cvals ()[mc::choose (8)] : mc::choose_from (cvals ());
    }
    const int by = mc::choose (3);
    const char op = mc::choose (2) ? '<' : '>';
    const T t = thresholds ()[mc::choose (n == 2 && !mc::thorough () ? 4 : (int) thresholds ().size ())];
    const std::string e = mc::fmt ("%c %c %s", "xyz"[by], op, t.s);
    Opt o; o.coord.push_back (Coord {by, op, t.v, e});
    Args a; add (a, "-c", "--remove-coords", e, mc::choose (n == 1 ? 3 : 1));
    run (in, a, o);
}
// All filters together equal the filters one after the other, in any order
MC_SCENARIO ("composition", 0, 0)
{
    if (mc::is_asan && !mc::thorough ()) mc::abandon ();
    const int n = 6;
    Cloud in = base (n, 1, 1, false);
    const int arr = mc::choose (mc::thorough () ? 243 : 81); // classes and coordinates in different combinations
    int q = arr;
    for (auto &r : in.v) { r.c = q % 3; r.x = (q + r.p) % 3; r.y = r.p % 2; q /= 3; if (q == 0) q = arr + 1; }
    const int km = mc::choose (8), rm = mc::choose (8);
    const int cx = mc::choose (3);
    Opt all; Args parts[3];
    for (int k = 0; k < 3; ++k) if (km >> k & 1) { all.keep.insert (k); parts[0].push_back ("-k"); parts[0].push_back (std::to_string (k)); }
    for (int k = 0; k < 3; ++k) if (rm >> k & 1) { all.remove.insert (k); parts[1].push_back ("-r"); parts[1].push_back (std::to_string (k)); }
    if (cx) { const std::string e = cx == 1 ? "x < 1" : "x > 1"; all.coord.push_back (Coord {0, cx == 1 ? '<' : '>', 1, e}); parts[2] = {"-c", e}; }
    static const int PERM[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    const int *p = PERM[mc::choose (6)];
    Args a;
    for (int k = 0; k < 3; ++k) a.insert (a.end (), parts[p[k]].begin (), parts[p[k]].end ());
    run (in, a, all);
    if (mc::thorough () || arr % 9 == 0)
    {
        std::string s = encode (in);
        for (int k = 0; k < 3; ++k) if (!parts[p[k]].empty ()) { const auto r = app::run ("filter", parts[p[k]], s); MC_CHECK (r.rc == 0, "fails", "%s", r.err.c_str ()); s = r.out; }
        cli::expect (cli::must_parse (s, "pipeline"), apply (in, all), "pipeline of filters " + cli::join (a), in, "pipeline");
    }
}
// The class and coordinate filters come before or after the others as documented by the order of the code:
// classes, duplicates, voxels, coordinates
MC_SCENARIO ("all-filters", 0, 0)
{
    if (mc::is_asan && !mc::thorough ()) mc::abandon ();
    const int n = 4;
    Cloud in = base (n, 0, 1, false);
    static const double X[3] = {0, 0.5, 1.5};
    for (auto &r : in.v) { r.x = X[mc::choose (3)]; r.y = r.z = 0; r.c = mc::choose (2); }
    const int f = mc::choose (32);
    Args a; Cloud want = in;
    auto filter = [&] (auto &&ok) { std::vector<Rec> v; for (auto &r : want.v) if (ok (r)) v.push_back (r); want.v = v; };
    if (f & 16) { a.push_back ("-c"); a.push_back ("x < 0.25"); }
    if (f & 8) { a.push_back ("-s"); a.push_back ("1"); }
    if (f & 4) a.push_back ("-u");
    if (f & 2) { a.push_back ("-r"); a.push_back ("0"); filter ([] (const Rec &r) { return r.c != 0; }); }
    if (f & 1) { a.push_back ("-k"); a.push_back ("1"); filter ([] (const Rec &r) { return r.c == 1; }); }
    if (f & 4) { std::set<double> s; filter ([&] (const Rec &r) { return s.insert (r.x).second; }); }
    if (f & 8) { double lo = 1e9; for (auto &r : want.v) lo = std::min (lo, r.x); std::set<double> s; filter ([&] (const Rec &r) { return s.insert (std::floor (r.x - lo)).second; }); }
    if (f & 16) filter ([] (const Rec &r) { return !(r.x < 0.25); });
    const Cloud got = cli::cloud ("filter", a, encode (in));
    cli::expect (got, want, "spoc_filter " + cli::join (a), in, "all-filters");
    mc::state (hash (got) * 3 + f); mc::validated ();
}
// Fields, metadata, and compression are kept
MC_SCENARIO ("fields", 1, 2)
{
    const bool comp = !mc::is_asan && mc::choose (2);
    const int n = 3; const size_t extra = mc::choose (2) * 2;
    Cloud in = make (n, extra, mc::choose (2) ? wkt_of_length (300) : "", comp, 1);
    deviate (in);
    if (comp && !mc::thorough ()) for (auto &r : in.v) if (r.x != 1.0 + (&r - &in.v[0])) mc::abandon (); // fewer compressed ones
    const int what = mc::choose (4);
    Opt o; Args a;
    if (what == 0) { o.keep = {3, 7}; a = {"-k", "3", "-k", "7"}; }
    else if (what == 1) { o.remove = {3, 7}; a = {"-r", "7", "-r", "3"}; }
    else if (what == 2) { o.coord.push_back (Coord {1, '<', -1, ""}); a = {"-c", "y < -1"}; }
    if (comp && what == 3 && !mc::thorough ()) mc::abandon ();
    run (in, a, o);
}
// Many records
MC_SCENARIO ("long", 0, 0)
{
    static const std::vector<int> N {100, 1001, 5003, 70001};
    const int n = mc::choose_from (N);
    if (mc::is_asan && n > 5000) mc::abandon ();
    Cloud in = base (n, 1, 2, false);
    for (size_t k = 0; k < in.v.size (); ++k) { in.v[k].c = mix (k) % 4; in.v[k].x = (double) (mix (k) % 1000); in.v[k].y = k; }
    const int what = mc::choose (8);
    Opt o; Args a;
    if (what & 4) { o.remove = {0, 2}; a = {"-r", "0", "-r", "2"}; }
    if (what & 1) { o.keep = {1, 2}; for (auto s : {"-k", "1", "-k", "2"}) a.push_back (s); }
    if (what & 2) { o.coord.push_back (Coord {0, '>', 500, ""}); a.push_back ("-c"); a.push_back ("x > 500"); }
    run (in, a, o);
}
// Any number of options
MC_SCENARIO ("many-options", 0, 0)
{
    if (mc::is_asan) mc::abandon ();
    static const std::vector<int> N {256, 257, 1000};
    const int k = mc::choose (mc::thorough () ? 303 : 143), n = k < 3 ? N[k] : k - 2;
    const bool keep = mc::choose (2);
    Cloud in = base (3 * n + 1, 0, 1, false);
    for (size_t j = 0; j < in.v.size (); ++j) in.v[j].c = j * 7919 % (3 * n + 1);
    Opt o; Args a;
    for (int j = 0; j < n; ++j) { add (a, keep ? "-k" : "-r", keep ? "--keep-class" : "--remove-class", std::to_string (3 * j), j % 4); (keep ? o.keep : o.remove).insert (3 * j); }
    run (in, a, o);
}
// The record that is different is anywhere
MC_SCENARIO ("anywhere", 0, 0)
{
    if (mc::is_asan) mc::abandon ();
    const int n = mc::choose_from (std::vector<int> {7, 64, 65, 520}), at = mc::choose (n), what = mc::choose (4);
    Cloud in = base (n, 1, 2, false);
    for (auto &r : in.v) { r.c = 2; r.y = 1; }
    in.v[at].c = 7; in.v[at].y = -5;
    Opt o; Args a;
    if (what == 0) { o.keep = {7}; a = {"-k", "7"}; }
    if (what == 1) { o.remove = {7}; a = {"-r", "7"}; }
    if (what == 2) { o.remove = {2}; a = {"-r", "2"}; }
    if (what == 3) { o.coord.push_back (Coord {1, '<', 0, ""}); a = {"-c", "y < 0"}; }
    run (in, a, o);
}
// Anything that is not an axis, an operator, and a number is an error
MC_SCENARIO ("malformed", 0, 0)
{
    static const std::vector<std::string> A {"x", "X", "w", "xy", "c", "", "1", "-x"}, O {">", "<", "=", ">=", "<=", "==", "", "><", "<>", ">>", "<<", "gt"}, V {"10", "1e5", "", "ten", "10 ", " 10", "1,5", "10x", "x", "-", "1e", "--3", "."};
    const int a = mc::choose ((int) A.size ()), o = mc::choose ((int) O.size ()), v = mc::choose ((int) V.size ());
    const int glue = mc::choose (4); // single spaces, none, double, leading
    if (mc::is_asan && (a > 2 || o > 4)) mc::abandon ();
    const std::string sp = glue == 1 ? "" : glue == 2 ? "  " : " ";
    const std::string e = (glue == 3 ? " " : "") + A[a] + sp + O[o] + sp + V[v];
    if (e.empty ()) mc::abandon (); // no expression
    const bool good = glue == 0 && a == 0 && o < 2 && v < 2;
    Cloud in = base (2, 0, 1, false);
    const Args args {"-c", e};
    if (good) { Opt op; op.coord.push_back (Coord {0, O[o][0], v ? 1e5 : 10, e}); run (in, args, op); return; }
    const app::Result r = app::run ("filter", args, encode (in));
    MC_CHECK (r.rc != 0 && !r.err.empty () && r.out.empty (), "malformed", "spoc_filter -c '%s': exit %d, %zu bytes out", e.c_str (), r.rc, r.out.size ());
    mc::state (e); mc::validated ();
}
MC_MAIN
