// C23: the Python binding is equivalent to the C++ library
// The interpreter is embedded into the explorer; the extension module under test is a shared object of its own.
#include <pybind11/embed.h>
#include "cli.h"
#include "glue.h"
namespace py = pybind11;
using namespace model;

static py::object &sp ()
{
    static py::object *m = nullptr;
    if (!m)
    {
        new py::scoped_interpreter (false);
        const char *d = getenv ("MC_APPS");
        py::module_ sys = py::module_::import ("sys");
        sys.attr ("dont_write_bytecode") = true;
        sys.attr ("path").attr ("insert") (0, d);
        m = new py::object (py::module_::import ("spocpy"));
    }
    mc::step ();
    return *m;
}
static const std::vector<std::string> FIELDS {"x", "y", "z", "c", "p", "i", "r", "g", "b"};
static py::object record (const Rec &r)
{
    py::object p = sp ().attr ("PointRecord") ();
    p.attr ("x") = r.x; p.attr ("y") = r.y; p.attr ("z") = r.z;
    p.attr ("c") = r.c; p.attr ("p") = r.p; p.attr ("i") = r.i; p.attr ("r") = r.r; p.attr ("g") = r.g; p.attr ("b") = r.b;
    py::list e; for (uint64_t u : r.e) e.append (py::int_ (u));
    p.attr ("extra") = e;
    return p;
}
static py::list records (const std::vector<Rec> &v) { py::list l; for (auto &r : v) l.append (record (r)); return l; }
// Values must be of the expected types, or the conversion fails
static double num (const py::object &o) { if (!py::isinstance<py::float_> (o)) throw py::type_error ("not a float"); return o.cast<double> (); }
static uint64_t uns (const py::object &o) { if (!py::isinstance<py::int_> (o) || py::isinstance<py::bool_> (o)) throw py::type_error ("not an int"); return o.cast<uint64_t> (); }
static Rec from (const py::object &p)
{
    Rec r;
    r.x = num (p.attr ("x")); r.y = num (p.attr ("y")); r.z = num (p.attr ("z"));
    r.c = uns (p.attr ("c")); r.p = uns (p.attr ("p")); r.i = uns (p.attr ("i")); r.r = uns (p.attr ("r")); r.g = uns (p.attr ("g")); r.b = uns (p.attr ("b"));
    for (auto e : p.attr ("extra")) r.e.push_back (uns (py::reinterpret_borrow<py::object> (e)));
    return r;
}
static std::vector<Rec> from_list (const py::object &l)
{
    std::vector<Rec> v;
    for (auto p : l) v.push_back (from (py::reinterpret_borrow<py::object> (p)));
    return v;
}
// Empty if f went well, otherwise the type of the Python exception
template<typename F> static std::string raises (F &&f, std::string *what = nullptr)
{
    try { f (); }
    catch (py::error_already_set &e) { if (what) *what = e.what (); return e.type ().attr ("__name__").template cast<std::string> (); }
    catch (const py::builtin_exception &e) { if (what) *what = e.what (); return "binding"; }
    catch (const py::cast_error &e) { if (what) *what = e.what (); return "cast"; }
    return "";
}
// Everything Python can see of a cloud
static void verify (const py::object &f, const Cloud &c, const char *who)
{
    std::string what;
    const std::string ex = raises ([&] {
        Cloud got;
        got.major = uns (f.attr ("getMajorVersion") ()); got.minor = uns (f.attr ("getMinorVersion") ());
        got.wkt = f.attr ("getWKT") ().cast<std::string> ();
        got.compressed = py::bool_ (f.attr ("getCompressed") ());
        const py::object l = f.attr ("getPointRecords") ();
        got.v = from_list (l);
        got.extra = got.v.empty () ? 0 : got.v[0].e.size ();
        const std::string d = differ (cli::norm (c), got);
        MC_CHECK (d.empty (), "cloud", "%s: getters differ from the cloud: %s; %s / %s", who, d.c_str (), show (c).c_str (), show (got).c_str ());
        for (size_t k = 0; k < c.v.size (); ++k)
        {
            const Rec r = from (f.attr ("getPointRecord") (k));
            MC_CHECK (same (r, c.v[k]), "record", "%s: getPointRecord(%zu) is %s, expected %s", who, k, show (r).c_str (), show (c.v[k]).c_str ());
        }
        for (int k = 0; k < 9 + (int) cli::norm (c).extra; ++k)
        {
            const py::object a = k < 9 ? f.attr (("get" + std::string (1, (char) toupper (FIELDS[k][0]))).c_str ()) () : f.attr ("getExtra") (k - 9);
            MC_CHECK (py::len (a) == c.v.size (), "column", "%s: column %d has %zu values for %zu records", who, k, (size_t) py::len (a), c.v.size ());
            size_t n = 0;
            for (auto e : a)
            {
                const py::object o = py::reinterpret_borrow<py::object> (e);
                if (k < 3) { const double d = num (o); MC_CHECK (bits (d) == bits (coord (c.v[n], k)), "column", "%s: column %d, record %zu is %a", who, k, n, d); }
                else { const uint64_t u = uns (o); MC_CHECK (u == get_int (c.v[n], k), "column", "%s: column %d, record %zu is %llu, expected %llu", who, k, n, (unsigned long long) u, (unsigned long long) get_int (c.v[n], k)); }
                ++n;
            }
        }
    }, &what);
    MC_CHECK (ex.empty (), "getter-raises", "%s: %s: %s", who, ex.c_str (), what.c_str ());
    mc::state (hash (c) + 1); mc::validated ();
}
static void verify_header (const py::object &h, const Cloud &c, const char *who)
{
    std::string what;
    const std::string ex = raises ([&] {
        MC_CHECK (uns (h.attr ("major_version")) == c.major && uns (h.attr ("minor_version")) == c.minor && h.attr ("wkt").cast<std::string> () == c.wkt
            && uns (h.attr ("extra_fields")) == c.extra && uns (h.attr ("total_points")) == c.v.size () && (bool) py::bool_ (h.attr ("compressed")) == c.compressed,
            "header", "%s: header differs from that of %s", who, show (c).c_str ()); }, &what);
    MC_CHECK (ex.empty (), "getter-raises", "%s: header: %s: %s", who, ex.c_str (), what.c_str ());
}
static std::string by_library (const Cloud &c) { std::ostringstream o; spoc::io::write_spoc_file (o, glue::to_spoc (c)); return o.str (); }
static void py_write (const py::object &f, const Cloud &c, const char *who)
{
    std::string what;
    const std::string ex = raises ([&] { sp ().attr ("writespocfile") ("out.spoc", f); }, &what);
    MC_CHECK (ex.empty (), "write-raises", "%s: writespocfile: %s: %s", who, ex.c_str (), what.c_str ());
    const std::string got = app::slurp ("out.spoc");
    MC_CHECK (got == by_library (cli::norm (c)), "written", "%s: writespocfile writes another file than the C++ library for %s", who, show (c).c_str ());
    if (!c.compressed) MC_CHECK (got == encode (cli::norm (c)), "written", "%s: writespocfile writes another file than the layout says for %s", who, show (c).c_str ());
    unlink ("out.spoc");
}
static void read_and_build (const Cloud &c)
{
    mc::note (show (c));
    app::spit ("in.spoc", encode (c));
    std::string what;
    py::object f, h;
    const std::string ex = raises ([&] { f = sp ().attr ("readspocfile") ("in.spoc"); h = sp ().attr ("readheader") ("in.spoc"); }, &what);
    MC_CHECK (ex.empty (), "read-raises", "reading a valid file: %s: %s; %s", ex.c_str (), what.c_str (), show (c).c_str ());
    verify (f, c, "read"); verify_header (h, c, "read");
    py_write (f, c, "read and written");
    // the same cloud, built in Python
    py::object g;
    const std::string e2 = raises ([&] { g = sp ().attr ("SpocFile") (c.wkt, c.compressed); g.attr ("setPointRecords") (records (c.v)); }, &what);
    MC_CHECK (e2.empty (), "build-raises", "building: %s: %s; %s", e2.c_str (), what.c_str (), show (c).c_str ());
    verify (g, c, "built");
    py_write (g, c, "built and written");
    // and again, one by one, from the other compression flag
    Cloud other = c; other.compressed = !c.compressed;
    const std::string e3 = raises ([&] { f.attr ("setCompressed") (other.compressed); for (size_t k = 0; k < c.v.size (); ++k) f.attr ("setPointRecord") (k, g.attr ("getPointRecord") (k)); }, &what);
    MC_CHECK (e3.empty (), "build-raises", "setting: %s: %s; %s", e3.c_str (), what.c_str (), show (c).c_str ());
    verify (f, other, "set"); py_write (f, other, "set and written");
}
MC_SCENARIO ("cells", 1, 2)
{
    const size_t n = mc::choose (4), extra = mc::choose (3);
    const bool compressed = mc::choose (2); const int pattern = mc::choose (2);
    Cloud c = make (n, extra, "w", compressed, pattern);
    deviate (c);
    read_and_build (c);
}
MC_SCENARIO ("shapes", 0, 0)
{
    const size_t n = mc::choose_from (std::vector<size_t> {0, 1, 2, 17, 256, 70001}), extra = mc::choose_from (std::vector<size_t> {0, 1, 2, 7, 254, 255});
    if (n > 256 && (extra > 1 || mc::is_asan)) mc::abandon ();
    Cloud c = make (n, extra, "x", mc::choose (2), 1 + mc::choose (2));
    read_and_build (c);
}
MC_SCENARIO ("wkt", 0, 0)
{
    static const std::vector<std::string> W {"", "a", std::string ("a\0b", 3), "\xc3\xa9", "\xf0\x9f\x98\x80", "line\nline\r\n", " ", std::string (255, 'a'), std::string (256, 'b'), std::string (65534, 'c'), std::string (65535, 'd'), "\"'\\", std::string (1, '\0')};
    Cloud c = make (mc::choose (2), 1, mc::choose_from (W), mc::choose (2), 1);
    read_and_build (c);
}
MC_SCENARIO ("bits", 0, 0)
{
    const int f = mc::choose (11), b = mc::choose (bits_of (f));
    Cloud c = make (2, 2, "", mc::choose (2), 0);
    Rec &r = c.v[mc::choose (2)];
    if (f < 3) coord (r, f) = from_bits (1ull << b); else set_int (r, f, 1ull << b);
    read_and_build (c);
}
MC_SCENARIO ("versions", 0, 0)
{
    Cloud c = make (1, 1, "", mc::choose (2), 1);
    static const std::vector<int> V {0, 1, 2, 3, 127, 128, 255};
    const int major = mc::choose_from (V), minor = mc::choose_from (V);
    std::string b = encode (c); b[4] = (char) major; b[5] = (char) minor;
    app::spit ("in.spoc", b);
    // whatever the C++ library does
    Cloud want; std::string werr, what;
    const bool refused = glue::throws ([&] { std::istringstream i (b); want = glue::from_spoc (spoc::io::read_spoc_file (i)); }, &werr);
    py::object f;
    const std::string ex = raises ([&] { f = sp ().attr ("readspocfile") ("in.spoc"); }, &what);
    MC_CHECK (ex.empty () == !refused, "refusal", "version %d.%d: Python: '%s', C++: '%s'", major, minor, what.c_str (), werr.c_str ());
    if (!refused) verify (f, want, "version");
    mc::state (major * 256 + minor);
}
MC_SCENARIO ("constants", 0, 0)
{
    MC_CHECK (uns (sp ().attr ("getmajorversion") ()) == spoc::MAJOR_VERSION && uns (sp ().attr ("getminorversion") ()) == spoc::MINOR_VERSION, "version", "another version than the library");
    py::object cpp = py::module_::import ("spocpy.spocpy_cpp");
    for (const char *n : {"getmajorversion", "getminorversion", "readheader", "PointRecord", "SpocFile", "readspocfile", "writespocfile"})
        MC_CHECK (py::hasattr (sp (), n) && sp ().attr (n).is (cpp.attr (n)), "surface", "spocpy.%s is not that of the extension", n);
    const py::object r = sp ().attr ("PointRecord") ();
    MC_CHECK (same (from (r), Rec ()), "default", "a new record is %s", show (from (r)).c_str ());
    Cloud c; c.wkt = "q"; c.compressed = mc::choose (2);
    verify (sp ().attr ("SpocFile") ("q", c.compressed), c, "new");
}
// Attributes of records: any value that fits, nothing else, and a refused value changes nothing
MC_SCENARIO ("attributes", 0, 0)
{
    const int f = mc::choose (10);
    const int b = bits_of (f);
    const Rec was = pattern_rec (3, 2, 1);
    py::object r = record (was);
    std::string what;
    if (f >= 3)
    {
        py::object one = py::int_ (1), two = one.attr ("__lshift__") (b);
        const std::vector<py::object> ok {py::int_ (0), py::int_ (1), two.attr ("__sub__") (1), two.attr ("__rshift__") (1)};
        const std::vector<py::object> no {two, two.attr ("__add__") (1), py::int_ (-1), py::float_ (1.5), py::str ("1"), py::none ()};
        const int k = mc::choose ((int) (ok.size () + no.size ()));
        const bool fits = k < (int) ok.size ();
        const py::object v = fits ? ok[k] : no[k - ok.size ()];
        py::list e; e.append (v); e.append (py::int_ (5));
        const std::string ex = raises ([&] { r.attr (f < 9 ? FIELDS[f].c_str () : "extra") = f < 9 ? v : (py::object) e; }, &what);
        MC_CHECK (ex.empty () == fits, "attribute", "%s = %s: %s", f < 9 ? FIELDS[f].c_str () : "extra[0]", py::str (v).cast<std::string> ().c_str (), fits ? ("refused: " + what).c_str () : "accepted");
        Rec want = was;
        if (fits) { if (f < 9) set_int (want, f, v.cast<uint64_t> ()); else want.e = {v.cast<uint64_t> (), 5}; }
        MC_CHECK (same (from (r), want), "attribute", "after %s = %s the record is %s, expected %s", f < 9 ? FIELDS[f].c_str () : "extra[0]", py::str (v).cast<std::string> ().c_str (), show (from (r)).c_str (), show (want).c_str ());
    }
    else
    {
        const double d = mc::choose_from (all_doubles ());
        r.attr (FIELDS[f].c_str ()) = d;
        Rec want = was; coord (want, f) = d;
        MC_CHECK (same (from (r), want), "attribute", "after %s = %a the record is %s", FIELDS[f].c_str (), d, show (from (r)).c_str ());
        const std::string ex = raises ([&] { r.attr (FIELDS[f].c_str ()) = py::str ("1"); }, &what);
        MC_CHECK (!ex.empty () && same (from (r), want), "attribute", "%s = '1' is accepted", FIELDS[f].c_str ());
    }
    mc::state (f);
}
// Files that are missing, damaged, or can't be written
MC_SCENARIO ("damaged", 0, 0)
{
    static const std::vector<std::pair<int,int>> SHAPES {{0, 0}, {1, 0}, {1, 2}, {3, 1}};
    const auto s = mc::choose_from (SHAPES);
    const bool compressed = mc::choose (2);
    std::string b = encode (make (s.first, s.second, "ab", compressed, 1));
    const int how = mc::choose (3);
    const size_t at = mc::choose ((int) b.size ());
    if (how == 0) b.resize (at);
    else if (how == 1) b[at] ^= 1;
    else b[at] ^= (char) 0x80;
    // nothing that asks for more memory than there is
    if (b.size () > 8)
    {
        const size_t at_total = 8 + (uint8_t) b[6] + 256 * (uint8_t) b[7] + 1;
        uint64_t total = 0;
        if (at_total + 8 <= b.size ()) memcpy (&total, &b[at_total], 8);
        if (total > (1u << 16)) mc::abandon ();
    }
    app::spit ("in.spoc", b);
    Cloud want; spoc::header::header wh;
    std::string w1, w2, p1, p2;
    const bool r1 = glue::throws ([&] { std::istringstream i (b); want = glue::from_spoc (spoc::io::read_spoc_file (i)); }, &w1);
    const bool r2 = glue::throws ([&] { std::istringstream i (b); wh = spoc::header::read_header (i); }, &w2);
    py::object f, h;
    const std::string e1 = raises ([&] { f = sp ().attr ("readspocfile") ("in.spoc"); }, &p1), e2 = raises ([&] { h = sp ().attr ("readheader") ("in.spoc"); }, &p2);
    MC_CHECK (e1.empty () == !r1, "refusal", "readspocfile: Python: '%s', C++: '%s'", p1.c_str (), w1.c_str ());
    MC_CHECK (e2.empty () == !r2, "refusal", "readheader: Python: '%s', C++: '%s'", p2.c_str (), w2.c_str ());
    mc::state (b);
    mc::validated ();
    const auto ascii = [] (const std::string &t) { for (char ch : t) if (ch & 0x80) return false; return true; };
    if (!r1 && ascii (want.wkt)) { verify (f, want, "damaged"); py_write (f, want, "damaged and written"); }
    if (!r2 && ascii (wh.wkt))
        MC_CHECK (uns (h.attr ("total_points")) == wh.total_points && uns (h.attr ("extra_fields")) == wh.extra_fields && h.attr ("compressed").attr ("__int__") ().cast<int> () == wh.compressed && h.attr ("wkt").cast<std::string> () == wh.wkt, "header", "readheader gives another header than C++");
}
MC_SCENARIO ("files", 0, 0)
{
    const int what = mc::choose (9);
    app::clean ();
    std::string msg, ex;
    Cloud c = make (1, 1, "w", mc::choose (2), 1);
    py::object f = sp ().attr ("SpocFile") (c.wkt, c.compressed);
    f.attr ("setPointRecords") (records (c.v));
    const auto refused = [&] (const char *w) { MC_CHECK (ex == "RuntimeError" && !msg.empty (), "error", "%s: %s", w, ex.empty () ? "no exception" : (ex + ": " + msg).c_str ()); };
    switch (what)
    {
        case 0: ex = raises ([&] { sp ().attr ("readspocfile") ("missing.spoc"); }, &msg); refused ("reading a missing file"); break;
        case 1: ex = raises ([&] { sp ().attr ("readheader") ("missing.spoc"); }, &msg); refused ("reading the header of a missing file"); break;
        case 2: mkdir ("d", 0700); ex = raises ([&] { sp ().attr ("readspocfile") ("d"); }, &msg); refused ("reading a directory"); break;
        case 3: ex = raises ([&] { sp ().attr ("writespocfile") ("no/such/file", f); }, &msg); refused ("writing to a missing directory"); break;
        case 4: mkdir ("d", 0700); ex = raises ([&] { sp ().attr ("writespocfile") ("d", f); }, &msg); refused ("writing to a directory"); break;
        case 5: ex = raises ([&] { sp ().attr ("writespocfile") ("/dev/full", f); }, &msg); refused ("writing to a full device"); break;
        case 6: f.attr ("setWKT") (std::string (65536, 'a')); ex = raises ([&] { sp ().attr ("writespocfile") ("o.spoc", f); }, &msg); refused ("writing metadata that is too long"); break;
        case 7: { Cloud l = make (1, 256, "", c.compressed, 1); f.attr ("setPointRecords") (records (l.v)); ex = raises ([&] { sp ().attr ("writespocfile") ("o.spoc", f); }, &msg); refused ("writing 256 extra fields"); break; }
        default: app::spit ("o.spoc", std::string (100000, 'x')); py_write (f, c, "over a longer file"); ex = raises ([&] { sp ().attr ("writespocfile") ("o.spoc", f); }); MC_CHECK (ex.empty () && app::slurp ("o.spoc") == by_library (c), "written", "overwriting a longer file leaves a part of it");
    }
    mc::state (what); mc::validated ();
}
// Sequences of calls on two clouds, against a model
struct Handle { py::object o; Rec want; };
MC_SCENARIO ("sequences", 0, 0)
{
    Cloud m[2];
    py::object f[2];
    const int init = mc::choose (3);
    for (int k = 0; k < 2; ++k)
    {
        m[k] = make (init, init == 2 ? 2 : 1, k ? "b" : "a", k, 1);
        f[k] = sp ().attr ("SpocFile") (m[k].wkt, m[k].compressed);
        f[k].attr ("setPointRecords") (records (m[k].v));
    }
    std::vector<Handle> held;                              // records that Python holds
    std::vector<std::pair<py::object,std::vector<Rec>>> lists; // and lists of records
    const int depth = mc::thorough () ? 4 : 3;
    std::string trace;
    for (int step = 0; step < depth; ++step)
    {
        static const int OPS = 18;
        const int op = mc::choose (OPS);
        const int k = op == 0 || op == 17 ? 0 : mc::choose (2);
        Cloud &c = m[k]; py::object &o = f[k];
        std::string ex, what; bool refused = false;
        trace += mc::fmt (" %d%c", op, 'a' + k);
        const Rec a = pattern_rec (40 + step, c.extra, 1);
        switch (op)
        {
            case 0: std::swap (f[0], f[1]); std::swap (m[0], m[1]); break;
            case 1: c.wkt = "new"; ex = raises ([&] { o.attr ("setWKT") ("new"); }, &what); break;
            case 2: c.compressed = !c.compressed; ex = raises ([&] { o.attr ("setCompressed") (c.compressed); }, &what); break;
            case 3: // set the last record
                if (c.v.empty ()) mc::abandon ();
                c.v.back () = a; ex = raises ([&] { py::object r = record (a); o.attr ("setPointRecord") (c.v.size () - 1, r); held.push_back ({r, a}); }, &what); break;
            case 4: // one extra field too many
                if (c.v.empty ()) mc::abandon ();
                refused = true; ex = raises ([&] { Rec b = a; b.e.push_back (1); o.attr ("setPointRecord") (0, record (b)); }, &what); break;
            case 5: { std::vector<Rec> v {pattern_rec (step, 1, 2), pattern_rec (step + 9, 1, 2)}; c.v = v; c.extra = 1;
                ex = raises ([&] { py::list l = records (v); o.attr ("setPointRecords") (l); lists.push_back ({l, v}); }, &what); break; }
            case 6: refused = true; ex = raises ([&] { o.attr ("setPointRecords") (records ({pattern_rec (0, 1, 1), pattern_rec (1, 2, 1)})); }, &what); break;
            case 7: c.v.clear (); c.extra = 0; ex = raises ([&] { o.attr ("setPointRecords") (py::list ()); }, &what); break;
            case 8: if (c.v.empty ()) mc::abandon (); ex = raises ([&] { held.push_back ({o.attr ("getPointRecord") (0), c.v[0]}); }, &what); break;
            case 9: ex = raises ([&] { lists.push_back ({o.attr ("getPointRecords") (), c.v}); }, &what); break;
            case 10: // change every record that is held, in place
                if (held.empty ()) mc::abandon ();
                for (auto &h : held) { h.want.x += 1; h.want.b ^= 1; h.o.attr ("x") = h.want.x; h.o.attr ("b") = h.want.b; if (!h.want.e.empty ()) { h.want.e[0] ^= 1; py::list e; for (auto u : h.want.e) e.append (py::int_ (u)); h.o.attr ("extra") = e; } }
                break;
            case 11: // change what the lists hold
                if (lists.empty ()) mc::abandon ();
                for (auto &l : lists) for (size_t j = 0; j < l.second.size (); ++j) { l.second[j].y -= 3; l.first[py::int_ (j)].attr ("y") = l.second[j].y; }
                break;
            case 12: // a held record into the cloud
                if (held.empty () || c.v.empty ()) mc::abandon ();
                refused = held.back ().want.e.size () != c.extra;
                if (!refused) c.v[0] = held.back ().want;
                ex = raises ([&] { o.attr ("setPointRecord") (0, held.back ().o); }, &what); break;
            case 13: // the records of one into the other
                m[1 - k].v = c.v; m[1 - k].extra = c.extra; ex = raises ([&] { f[1 - k].attr ("setPointRecords") (o.attr ("getPointRecords") ()); }, &what); break;
            case 14: // there and back
                ex = raises ([&] { sp ().attr ("writespocfile") ("s.spoc", o); o = sp ().attr ("readspocfile") ("s.spoc"); }, &what); break;
            case 15: // the value of an attribute that is a list is a copy
                if (held.empty ()) mc::abandon ();
                ex = raises ([&] { held.back ().o.attr ("extra").attr ("append") (7); }, &what); break;
            case 16: // the columns are copies
                ex = raises ([&] { py::object x = o.attr ("getX") (), g = o.attr ("getG") (); if (py::len (x)) { x[py::int_ (0)] = 77.0; g[py::int_ (0)] = 77; } }, &what); break;
            default: // the other cloud goes away and another takes its place
                m[1] = make (3, 1, "c", false, 2); f[1] = py::none (); f[1] = sp ().attr ("SpocFile") ("c", false); ex = raises ([&] { f[1].attr ("setPointRecords") (records (m[1].v)); }, &what);
        }
        MC_CHECK (ex.empty () == !refused, "sequence", "operations%s: %s", trace.c_str (), refused ? "accepted" : (ex + ": " + what).c_str ());
        if (refused) MC_CHECK (ex == "RuntimeError", "error", "operations%s: %s: %s", trace.c_str (), ex.c_str (), what.c_str ());
        mc::step ();
        for (int j = 0; j < 2; ++j) verify (f[j], m[j], trace.c_str ());
        for (auto &h : held) { const Rec r = from (h.o); MC_CHECK (same (r, h.want), "copy", "operations%s: a record that Python holds is %s, expected %s", trace.c_str (), show (r).c_str (), show (h.want).c_str ()); }
        for (auto &l : lists)
        {
            const auto v = from_list (l.first);
            MC_CHECK (v.size () == l.second.size (), "copy", "operations%s: a list that Python holds has %zu records, expected %zu", trace.c_str (), v.size (), l.second.size ());
            for (size_t j = 0; j < v.size (); ++j) MC_CHECK (same (v[j], l.second[j]), "copy", "operations%s: a record of a list that Python holds is %s, expected %s", trace.c_str (), show (v[j]).c_str (), show (l.second[j]).c_str ());
        }
    }
    mc::note (trace);
    for (int j = 0; j < 2; ++j) py_write (f[j], m[j], trace.c_str ());
}
// Headers are values, too
MC_SCENARIO ("headers", 0, 0)
{
    Cloud c = make (2, 1, "w", mc::choose (2), 1);
    app::spit ("in.spoc", encode (c));
    py::object h = sp ().attr ("readheader") ("in.spoc"), g = sp ().attr ("readheader") ("in.spoc");
    const int k = mc::choose (6);
    static const char *N[] = {"major_version", "minor_version", "wkt", "extra_fields", "total_points", "compressed"};
    const py::object v = k == 2 ? (py::object) py::str ("other") : k == 5 ? (py::object) py::bool_ (!c.compressed) : (py::object) py::int_ (77);
    std::string what;
    const std::string ex = raises ([&] { h.attr (N[k]) = v; }, &what);
    MC_CHECK (ex.empty () && py::object (h.attr (N[k])).equal (v), "header", "setting %s: %s %s", N[k], ex.c_str (), what.c_str ());
    for (int j = 0; j < 6; ++j) if (j != k) MC_CHECK (py::object (h.attr (N[j])).equal (py::object (g.attr (N[j]))), "header", "setting %s changes %s", N[k], N[j]);
    verify_header (g, c, "another header");
    verify_header (sp ().attr ("readheader") ("in.spoc"), c, "the header, read again");
    mc::state (k);
}
MC_MAIN
