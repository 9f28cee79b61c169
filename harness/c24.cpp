// C24: printed forms of values are complete, and the compact and indented JSON forms agree
#include "glue.h"
#include "spoc/json.h"
#include <cfloat>
#include <iomanip>
using namespace model;
using glue::to_spoc;
namespace J = spoc::json;

// ---- an independent description of a JSON value ----
struct Val
{
    enum { NUM, STR, BOOL, ARR, OBJ } t = NUM;
    std::string text;           // numbers: exact text, or
    bool real = false; double d = 0; float f = 0; bool is_float = false;
    std::vector<std::pair<std::string, Val>> kids;
};
// ---- an independent reader of the printed text: numbers, 'strings', true/false, [ ], { 'k' : v } ----
struct Reader
{
    const std::string &s; size_t p = 0;
    bool lines;                 // the indented form
    int depth = 0;
    explicit Reader (const std::string &s, bool lines) : s (s), lines (lines) {}
    [[noreturn]] void bad (const std::string &why) { mc::fail ("json-syntax", why + mc::fmt (" at %zu of: ", p) + s); throw 0; }
    void ws () { while (p < s.size () && (s[p] == ' ' || s[p] == '\n')) ++p; }
    void expect (char c) { ws (); if (p >= s.size () || s[p] != c) bad (std::string ("expected ") + c); ++p; }
    bool next (char c) { ws (); if (p < s.size () && s[p] == c) { ++p; return true; } return false; }
    std::string str () { expect ('\''); const size_t e = s.find ('\'', p); if (e == std::string::npos) bad ("unterminated string"); std::string r = s.substr (p, e - p); p = e + 1; return r; }
    std::string word () { ws (); const size_t b = p; while (p < s.size () && !strchr (" \n,[]{}':", s[p])) ++p; if (b == p) bad ("expected a value"); return s.substr (b, p - b); }
    // Members are on lines of their own, indented by their depth
    void own_line ()
    {
        if (!lines) return;
        size_t b = p; while (b < s.size () && (s[b] == ' ' || s[b] == '\n')) ++b;
        size_t nl = s.rfind ('\n', b); if (nl == std::string::npos || nl < p) bad ("a member is not on a line of its own");
        if (b - nl - 1 != 4u * depth) bad (mc::fmt ("a member is indented by %zu instead of %d", b - nl - 1, 4 * depth));
    }
    void read (const Val &v)
    {
        ws ();
        if (v.t == Val::ARR)
        {
            expect ('[');
            for (size_t k = 0; k < v.kids.size (); ++k) { if (k) expect (','); read (v.kids[k].second); }
            expect (']');
        }
        else if (v.t == Val::OBJ)
        {
            expect ('{'); ++depth;
            for (size_t k = 0; k < v.kids.size (); ++k)
            {
                if (k) expect (',');
                own_line ();
                if (str () != v.kids[k].first) bad ("another key than '" + v.kids[k].first + "'");
                expect (':'); read (v.kids[k].second);
            }
            --depth; expect ('}');
        }
        else if (v.t == Val::STR) { if (str () != v.text) bad ("another string than '" + v.text + "'"); }
        else if (v.real)
        {
            const std::string w = word (); char *e;
            if (v.is_float) { const float g = strtof (w.c_str (), &e); if (*e || memcmp (&g, &v.f, 4)) bad ("another number than " + mc::fmt ("%.9g", v.f)); }
            else { const double g = strtod (w.c_str (), &e); if (*e || bits (g) != bits (v.d)) bad ("another number than " + mc::fmt ("%.17g", v.d)); }
        }
        else { const std::string w = word (); if (w != v.text) bad ("expected " + v.text + " but found " + w); }
    }
    void all (const Val &v) { read (v); ws (); if (p != s.size ()) bad ("text behind the value"); }
};
static std::string squeeze (const std::string &s) // without white space outside of strings
{
    std::string r; bool q = false;
    for (char c : s) { if (c == '\'') q = !q; if (q || (c != ' ' && c != '\n')) r += c; }
    return r;
}
template<typename T> static std::string compact (const T &v, int prec) { std::ostringstream o; o << std::setprecision (prec); using J::operator<<; J::operator<< (o, v); return o.str (); }
template<typename T> static std::string indented (const T &v, int prec) { std::ostringstream o; o << std::setprecision (prec); J::pretty_print (o, v, 0); return o.str (); }

template<typename T> static void look (const T &j, const Val &v)
{
    const std::string c = compact (j, 17), i = indented (j, 17);
    mc::note (c);
    MC_CHECK (c.find ('\n') == std::string::npos || squeeze (c).find ('\n') != std::string::npos, "compact-line", "the compact form has several lines: %s", c.c_str ());
    Reader (c, false).all (v);
    Reader (i, true).all (v);
    MC_CHECK (squeeze (c) == squeeze (i), "forms-differ", "%s\n%s", c.c_str (), i.c_str ());
    MC_CHECK (compact (j, 17) == c && indented (j, 17) == i, "repeatable", "printed again it differs: %s", c.c_str ());
    mc::step (4); mc::state (c); mc::validated (2);
}
// All scalars; the number of them
struct Scalar { J::value j; Val v; };
template<typename T> static Scalar num (T x) { Scalar s; s.j = x; s.v.text = std::to_string (x); return s; }
static Scalar real (double x) { Scalar s; s.j = x; s.v.real = true; s.v.d = x; return s; }
static Scalar realf (float x) { Scalar s; s.j = x; s.v.real = s.v.is_float = true; s.v.f = x; return s; }
static Scalar str (const std::string &x) { Scalar s; s.j = x; s.v.t = Val::STR; s.v.text = x; return s; }
static Scalar lit (const char *x) { Scalar s; s.j = x; s.v.t = Val::STR; s.v.text = x; return s; }
static Scalar boolean (bool x) { Scalar s; s.j = x; s.v.t = Val::BOOL; s.v.text = x ? "true" : "false"; return s; }
static const std::vector<Scalar> &scalars ()
{
    static const std::vector<Scalar> v = [] {
        std::vector<Scalar> s;
        for (int x : {0, 1, -1, 255, 2147483647, -2147483647 - 1}) s.push_back (num (x));
        for (int x = -126; x < 128; x += 9) s.push_back (num ((char) x));
        for (int x : {0, 1, 9, 10, 39, 65, 127, 128, 255}) s.push_back (num ((uint8_t) x));
        for (int x : {0, 1, 255, 256, 32767, 32768, 65535}) s.push_back (num ((uint16_t) x));
        for (uint32_t x : {0u, 1u, 65536u, 2147483647u, 2147483648u, 4294967295u}) s.push_back (num (x));
        for (uint64_t x : {0ull, 1ull, 4294967295ull, 4294967296ull, 9007199254740993ull, 9223372036854775808ull, 18446744073709551615ull}) s.push_back (num ((uint64_t) x));
        for (double x : {0.0, -0.0, 1.0, -1.5, 0.1, 1e300, -1e-300, 123456789.123456789, 4294967296.0, DBL_MAX, DBL_MIN, from_bits (1)}) s.push_back (real (x));
        for (float x : {0.0f, -0.0f, 1.0f, -1.5f, 0.1f, 1e30f, FLT_MAX, FLT_MIN, 16777217.0f}) s.push_back (realf (x));
        for (const char *x : {"", "a", " ", "two words", "a,b", "{ : }", "[ ]", "\"q\"", "back\\slash", "\xc3\xa9", "true", "1"}) { s.push_back (str (x)); s.push_back (lit (x)); }
        s.push_back (boolean (true)); s.push_back (boolean (false));
        return s; } ();
    return v;
}

MC_SCENARIO ("scalars", 0, 0)
{
    const Scalar &s = mc::choose_from (scalars ());
    look (s.j, s.v);
    // as the only element, the only member, and next to each other scalar
    Val a; a.t = Val::ARR; a.kids = {{"", s.v}};
    look (J::array {s.j}, a); look (J::value (J::array {s.j}), a);
    Val o; o.t = Val::OBJ; o.kids = {{"k", s.v}};
    look (J::object {{"k", s.j}}, o); look (J::value (J::object {{"k", s.j}}), o);
}
MC_SCENARIO ("scalar-pairs", 0, 0)
{
    const Scalar &s = mc::choose_from (scalars ());
    for (const Scalar &t : scalars ())
    {
        Val a; a.t = Val::ARR; a.kids = {{"", s.v}, {"", t.v}};
        look (J::array {s.j, t.j}, a);
        Val o; o.t = Val::OBJ; o.kids = {{"a", s.v}, {"b", t.v}};
        look (J::object {{"a", s.j}, {"b", t.j}}, o);
    }
}
// All trees of a depth: scalars of each kind, arrays and objects of up to 3 (inner levels 2)
static std::pair<J::value, Val> tree (int depth, int width)
{
    static const std::vector<int> few {0, 1, 2, 3};
    static const std::vector<Scalar> leaf {num (7), str ("s t"), boolean (false), real (0.1)};
    const int kind = mc::choose (depth ? 3 : 1);
    if (kind == 0) { const Scalar &s = leaf[depth ? 0 : mc::choose (mc::thorough () ? 4 : 2)]; return {s.j, s.v}; }
    const int n = mc::choose (width + 1);
    Val v; v.t = kind == 1 ? Val::ARR : Val::OBJ;
    J::array a; J::object o;
    static const char *keys[3] = {"", "b b", "c"};
    for (int k = 0; k < n; ++k)
    {
        auto c = tree (depth - 1, k == 0 ? width : width - 1);
        if (kind == 1) { a.push_back (c.first); v.kids.push_back ({"", c.second}); }
        else { o[keys[k]] = c.first; v.kids.push_back ({keys[k], c.second}); }
    }
    if (kind == 1) return {J::value (a), v};
    return {J::value (o), v};
}
MC_SCENARIO ("trees", 0, 0)
{
    const auto t = tree (3, 2);
    look (t.first, t.second);
    const bool arr = t.second.t == Val::ARR, obj = t.second.t == Val::OBJ;
    if (arr) look (std::any_cast<J::array> (t.first), t.second);
    if (obj) look (std::any_cast<J::object> (t.first), t.second);
}
MC_SCENARIO ("chains", 0, 0) // every chain of nested arrays and objects up to a depth
{
    const int n = mc::choose (mc::thorough () ? 13 : 9);
    J::value j = 5; Val v; v.text = "5";
    for (int k = 0; k < n; ++k)
    {
        Val w;
        if (mc::choose (2)) { w.t = Val::ARR; w.kids = {{"", v}}; j = J::value (J::array {j}); }
        else { w.t = Val::OBJ; w.kids = {{"k", v}}; j = J::value (J::object {{"k", j}}); }
        v = w;
    }
    look (j, v);
}
MC_SCENARIO ("many", 0, 0)
{
    static const std::vector<int> N {0, 1, 2, 3, 9, 10, 11, 255, 256, 1000};
    const int n = mc::choose_from (N);
    J::array a; J::object o; Val va, vo; va.t = Val::ARR; vo.t = Val::OBJ;
    for (int k = 0; k < n; ++k)
    {
        const Scalar &s = scalars ()[k % scalars ().size ()];
        a.push_back (s.j); va.kids.push_back ({"", s.v});
        const std::string key = mc::fmt ("k%05d", k);
        o[key] = s.j; vo.kids.push_back ({key, s.v});
    }
    look (a, va); look (o, vo);
}
// Keys come in order, whatever the order of insertion
MC_SCENARIO ("keys", 0, 0)
{
    std::vector<std::string> k {"", "A", "a", "a b", "b"};
    J::object o; Val v; v.t = Val::OBJ;
    for (const auto &s : k) { v.kids.push_back ({s, num ((int) s.size ()).v}); }
    while (!k.empty ()) { const int i = mc::choose ((int) k.size ()); o[k[i]] = (int) k[i].size (); k.erase (k.begin () + i); }
    look (o, v);
}
// Digits follow the precision of the stream
MC_SCENARIO ("precision", 0, 0)
{
    static const std::vector<double> D {0.1, 1.0 / 3, 123456.789, 1e-7, 1e22, 4294967295.0, -2.5};
    const double d = mc::choose_from (D); const int p = 1 + mc::choose (17);
    for (int fixed = 0; fixed < 2; ++fixed)
    {
        std::ostringstream w, a, b; if (fixed) { w << std::fixed; a << std::fixed; b << std::fixed; }
        w << std::setprecision (p) << d; a << std::setprecision (p); b << std::setprecision (p);
        J::operator<< (a, J::value (d)); J::pretty_print (b, J::value (d), 0);
        MC_CHECK (a.str () == w.str () && b.str () == w.str (), "precision", "%s %s instead of %s", a.str ().c_str (), b.str ().c_str (), w.str ().c_str ());
    }
    mc::step (4); mc::state (mc::fmt ("%.17g %d", d, p)); mc::validated (2);
}

// ---- points, records, headers ----
static std::vector<std::string> words (const std::string &s) { std::istringstream i (s); std::vector<std::string> w; std::string t; while (i >> t) w.push_back (t); return w; }
static void is_double (const std::string &w, double d, const char *what, const std::string &all)
{
    char *e; const double g = strtod (w.c_str (), &e);
    MC_CHECK (*e == 0 && (bits (g) == bits (d) || (d != d && g != g)), what, "%s instead of %.17g in: %s", w.c_str (), d, all.c_str ());
}
MC_SCENARIO ("points", 0, 0)
{
    const auto &V = all_doubles ();
    spoc::point::point<double> p; p.x = mc::choose_from (V); p.y = mc::choose_from (V); p.z = mc::choose_from (V);
    std::ostringstream o; o << std::setprecision (17) << p;
    const auto w = words (o.str ());
    MC_CHECK (w.size () == 3, "point-words", "%s", o.str ().c_str ());
    is_double (w[0], p.x, "point-x", o.str ()); is_double (w[1], p.y, "point-y", o.str ()); is_double (w[2], p.z, "point-z", o.str ());
    mc::step (); mc::state (o.str ()); mc::validated ();
}
MC_SCENARIO ("records", 1, 2)
{
    static const std::vector<size_t> NX {0, 1, 2, 3};
    const size_t nx = mc::choose_from (NX);
    Rec r; r.x = 1.5; r.y = -2.25; r.z = 1e10 / 3; r.c = 11; r.p = 12; r.i = 13; r.r = 14; r.g = 15; r.b = 16;
    for (size_t k = 0; k < nx; ++k) r.e.push_back (100 + k);
    static const std::vector<double> D {1.5, 0.0, -0.0, 1e300, from_bits (1), 0.1, -1.0 / 0.0};
    static const std::vector<uint64_t> U {0, 1, 255, 256, 65535};
    const double d0[3] = {r.x, r.y, r.z};
    for (int k = 0; k < 3; ++k) { const int c = mc::dev ((int) D.size () + 1); (k == 0 ? r.x : k == 1 ? r.y : r.z) = c ? D[c - 1] : d0[k]; }
    if (int c = mc::dev (8)) { static const uint32_t Q[7] = {0, 1, 65536, 2147483647u, 2147483648u, 4294967295u, 10}; r.c = Q[c - 1]; }
    if (int c = mc::dev (8)) { static const uint32_t Q[7] = {0, 1, 65536, 2147483647u, 2147483648u, 4294967295u, 10}; r.p = Q[c - 1]; }
    if (int c = mc::dev (6)) r.i = U[c - 1];
    if (int c = mc::dev (6)) r.r = U[c - 1];
    if (int c = mc::dev (6)) r.g = U[c - 1];
    if (int c = mc::dev (6)) r.b = U[c - 1];
    for (size_t k = 0; k < nx; ++k)
        if (int c = mc::dev (6)) { static const uint64_t Q[5] = {0, 1, 4294967296ull, 9223372036854775808ull, ~0ull}; r.e[k] = Q[c - 1]; }
    std::ostringstream o; o << std::setprecision (17) << to_spoc (r);
    const std::string s = o.str (); const auto w = words (s);
    MC_CHECK (s.find ('\n') == std::string::npos, "record-line", "%s", s.c_str ());
    MC_CHECK (w.size () == 9 + nx, "record-words", "%zu words: %s", w.size (), s.c_str ());
    is_double (w[0], r.x, "record-x", s); is_double (w[1], r.y, "record-y", s); is_double (w[2], r.z, "record-z", s);
    for (int f = 3; f < 9; ++f) MC_CHECK (w[f] == std::to_string (get_int (r, f)), "record-field", "field %d: %s", f, s.c_str ());
    for (size_t k = 0; k < nx; ++k) MC_CHECK (w[9 + k] == std::to_string (r.e[k]), "record-extra", "extra field %zu: %s", k, s.c_str ());
    mc::step (); mc::state (s); mc::validated ();
}
MC_SCENARIO ("record-extras", 0, 0)
{
    const size_t nx = mc::choose (256);
    Rec r; for (size_t k = 0; k < nx; ++k) r.e.push_back (k * 72340172838076673ull);
    std::ostringstream o; o << to_spoc (r); const auto w = words (o.str ());
    MC_CHECK (w.size () == 9 + nx, "record-words", "%zu words for %zu extra fields", w.size (), nx);
    for (size_t k = 0; k < nx; ++k) MC_CHECK (w[9 + k] == std::to_string (r.e[k]), "record-extra", "extra field %zu of %zu", k, nx);
    mc::step (); mc::state (nx); mc::validated ();
}
MC_SCENARIO ("headers", 0, 0)
{
    static const std::vector<std::string> WKT {"", "Test", "two words", "line\nline", std::string (65535, 'w'), "extra_fields 9"};
    static const std::vector<size_t> NX {0, 1, 9, 10, 127, 128, 255};
    static const std::vector<uint64_t> N {0, 1, 4294967296ull, 9223372036854775808ull, ~0ull};
    const auto &wkt = mc::choose_from (WKT); const size_t nx = mc::choose_from (NX); const uint64_t n = mc::choose_from (N); const bool z = mc::choose (2);
    spoc::header::header h (wkt, nx, n, z);
    std::ostringstream o; o << h;
    const std::string s = o.str ();
    // signature, version, WKT, number of extra fields, number of points, compression flag, in that order
    const std::string head = mc::fmt ("SPOC\n%d.%d\n", (int) spoc::MAJOR_VERSION, (int) spoc::MINOR_VERSION);
    MC_CHECK (s.compare (0, head.size (), head) == 0, "header-version", "%s", s.substr (0, 40).c_str ());
    MC_CHECK (s.compare (head.size (), wkt.size () + 1, wkt + "\n") == 0, "header-wkt", "a text of %zu bytes is not printed", wkt.size ());
    const auto w = words (s.substr (head.size () + wkt.size () + 1));
    const std::vector<std::string> want {"extra_fields", std::to_string (nx), "total_points", std::to_string (n), "compressed", z ? "true" : "false"};
    MC_CHECK (w == want, "header-fields", "%s", s.substr (head.size () + wkt.size ()).c_str ());
    mc::step (); mc::state (s); mc::validated ();
}
MC_MAIN
