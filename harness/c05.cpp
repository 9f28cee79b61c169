// C05: the point cloud container behaves like a plain list with metadata, under every operation sequence
#include "glue.h"
using namespace model;
using spoc::file::spoc_file;
using glue::to_spoc;

// The model: a list of records and metadata
using M = Cloud;
static std::vector<Rec> recs (int kind)
{
    switch (kind)
    {
        case 0: return {};
        case 1: return {pattern_rec (1, 0, 1)};
        case 2: return {pattern_rec (2, 2, 1), pattern_rec (3, 2, 2)};
        case 3: return {pattern_rec (4, 1, 1), pattern_rec (5, 0, 1)};                        // inconsistent
        case 4: return {pattern_rec (4, 1, 1), pattern_rec (5, 1, 1), pattern_rec (6, 2, 1)}; // inconsistent in the last one
        default: return {pattern_rec (7, 1, 2), pattern_rec (8, 1, 1), pattern_rec (9, 1, 0)};
    }
}
static bool consistent (const std::vector<Rec> &v) { for (auto &r : v) if (r.e.size () != v[0].e.size ()) return false; return true; }
static size_t extras (const M &m) { return m.v.empty () ? 0 : m.v[0].e.size (); }

static std::string hist;
#define CK(cond, key, ...) MC_CHECK (cond, key, "%s; after: %s", mc::fmt (__VA_ARGS__).c_str (), hist.c_str ())

template<typename T, typename U> static bool eq (const std::vector<T> &a, const std::vector<U> &b)
{
    if (a.size () != b.size ()) return false;
    return a.empty () || memcmp (a.data (), b.data (), a.size () * sizeof (T)) == 0;
}
// Every accessor of the container
static void compare (const spoc_file &f, M m, const char *which)
{
    m.extra = extras (m);
    const std::string d = differ (m, glue::from_spoc (f));
    CK (d.empty (), "content", "container %s differs: %s", which, d.c_str ());
    CK (f.get_extra_fields () == m.extra, "extra-fields", "container %s reports %zu extra fields, it has %zu", which, f.get_extra_fields (), m.extra);
    CK (f.is_valid (), "is-valid", "container %s reports that it is not valid", which);
    const auto &p = f.get_point_records ();
    for (size_t k = 0; k < m.v.size (); ++k)
    {
        CK (p[k].extra.size () == m.extra, "same-extras", "record %zu of container %s has %zu extra fields", k, which, p[k].extra.size ());
        CK (same (glue::from_spoc (f.get_point_record (k)), m.v[k]), "get-point-record", "get_point_record(%zu) of container %s", k, which);
    }
    std::vector<double> x, y, z; std::vector<uint32_t> c, pp; std::vector<uint16_t> i, r, g, b;
    for (auto &q : m.v) { x.push_back (q.x); y.push_back (q.y); z.push_back (q.z); c.push_back (q.c); pp.push_back (q.p); i.push_back (q.i); r.push_back (q.r); g.push_back (q.g); b.push_back (q.b); }
    CK (eq (f.get_x (), x) && eq (f.get_y (), y) && eq (f.get_z (), z) && eq (f.get_c (), c) && eq (f.get_p (), pp) && eq (f.get_i (), i) && eq (f.get_r (), r) && eq (f.get_g (), g) && eq (f.get_b (), b), "columns", "a column of container %s differs", which);
    for (size_t k = 0; k < m.extra && k < 4; ++k)
    {
        std::vector<uint64_t> e; for (auto &q : m.v) e.push_back (q.e[k]);
        CK (eq (f.get_extra (k), e), "columns", "extra column %zu of container %s differs", k, which);
    }
    const bool refused = m.wkt.size () > 65535 || m.extra > 255;
    spoc::header::header h; std::string what;
    const bool err = glue::throws ([&] { h = f.get_header (); }, &what);
    CK (err == refused, "header-refused", "get_header of container %s %s (wkt %zu bytes, %zu extra fields)", which, err ? ("fails: " + what).c_str () : "does not fail", m.wkt.size (), m.extra);
    if (!err) CK (h.wkt == m.wkt && h.extra_fields == m.extra && h.total_points == m.v.size () && !!h.compressed == m.compressed && h.major_version == m.major && h.minor_version == m.minor && h.is_valid (), "header", "the header of container %s does not match its contents", which);
}

struct World
{
    spoc_file f[2]; M m[2];
    spoc::point_record::point_records ext; std::vector<Rec> mext; // an external vector, for moves
};
// Performs the step on the container and on the model, and compares the outcome
template<typename F> static void refusable (F &&op, bool refused)
{
    std::string what;
    const bool err = glue::throws (op, &what);
    if (refused) CK (err, "not-refused", "the last operation is not refused");
    else CK (!err, "refused", "the last operation fails: %s", what.c_str ());
}
static const int NOPS = 34;
static void apply (World &w, int op, int t) // t: target
{
    spoc_file &f = w.f[t], &g = w.f[1 - t]; M &m = w.m[t], &n = w.m[1 - t];
    auto say = [&] (const std::string &s) { hist += mc::fmt ("%c.%s ", 'A' + t, s.c_str ()); };
    auto push = [&] (size_t ex) {
        say (mc::fmt ("push_back(%zu extras)", ex));
        const Rec r = pattern_rec (10 + m.v.size (), ex, 2);
        const bool bad = !m.v.empty () && extras (m) != ex;
        refusable ([&] { f.push_back (to_spoc (r)); }, bad);
        if (!bad) m.v.push_back (r); };
    auto set1 = [&] (size_t at, size_t ex) {
        say (mc::fmt ("set_point_record(%zu, %zu extras)", at, ex));
        const Rec r = pattern_rec (20, ex, 2);
        const bool bad = extras (m) != ex;
        refusable ([&] { f.set_point_record (at, to_spoc (r)); }, bad);
        if (!bad) m.v[at] = r; };
    auto setall = [&] (int kind) {
        say (mc::fmt ("set_point_records(%d)", kind));
        const auto v = recs (kind);
        refusable ([&] { f.set_point_records (to_spoc (v)); }, !consistent (v));
        if (consistent (v)) m.v = v; };
    auto movein = [&] (int kind) {
        say (mc::fmt ("move_point_records(%d)", kind));
        const auto v = recs (kind);
        auto p = to_spoc (v);
        refusable ([&] { f.move_point_records (p); }, !consistent (v));
        if (consistent (v)) { m.v = v; CK (p.empty (), "move-in", "the vector moved from is not empty"); }
        else CK (p == to_spoc (v), "move-in-refused", "a refused move changed the vector"); };
    auto resize = [&] (size_t k) { say (mc::fmt ("resize_extra_fields(%zu)", k)); f.resize_extra_fields (k); for (auto &r : m.v) r.e.resize (k); };
    switch (op)
    {
        case 0: push (0); break;
        case 1: push (1); break;
        case 2: push (2); break;
        case 3: if (m.v.empty ()) mc::abandon (); set1 (0, extras (m)); break;
        case 4: if (m.v.size () < 2) mc::abandon (); set1 (m.v.size () - 1, extras (m)); break;
        case 5: if (m.v.empty ()) mc::abandon (); set1 (m.v.size () - 1, extras (m) + 1); break;
        case 6: if (m.v.empty () || !extras (m)) mc::abandon (); set1 (0, extras (m) - 1); break;
        case 7: setall (0); break;
        case 8: setall (2); break;
        case 9: setall (3); break;
        case 10: setall (4); break;
        case 11: setall (5); break;
        case 12: movein (0); break;
        case 13: movein (1); break;
        case 14: movein (5); break;
        case 15: movein (4); break;
        case 16: say ("move_point_records()"); { auto p = f.move_point_records (); CK (p == to_spoc (m.v), "move-out", "the records moved out differ"); m.v.clear (); } break;
        case 17: resize (0); break;
        case 18: resize (1); break;
        case 19: resize (3); break;
        case 20: resize (256); break;
        case 21: say ("set_wkt(3)"); f.set_wkt ("new"); m.wkt = "new"; break;
        case 22: say ("set_wkt(65535)"); { const std::string s (65535, 'w'); f.set_wkt (s); m.wkt = s; } break;
        case 23: say ("set_wkt(65536)"); { const std::string s (65536, 'w'); f.set_wkt (s); m.wkt = s; } break;
        case 24: say ("set_compressed(!)"); f.set_compressed (!m.compressed); m.compressed = !m.compressed; break;
        case 25: say ("= other"); f = g; m = n; break;
        case 26: say ("= itself"); { spoc_file &h = f; f = h; } break;
        case 27: say ("swap(other)"); f.swap (g); std::swap (m, n); break;
        case 28: say ("= copy of itself, extended"); { spoc_file h (f); if (consistent (m.v)) h.push_back (to_spoc (pattern_rec (30, extras (m), 2))); CK (h.get_point_records ().size () == m.v.size () + 1, "copy", "extending a copy"); compare (f, m, "(copied)"); f = h; m.v.push_back (pattern_rec (30, extras (m), 2)); } break;
        case 29: say ("= clone_empty()"); { const spoc_file h = f.clone_empty (); f = h; m.v.clear (); } break;
        case 30: say ("set_point_records(other's)"); f.set_point_records (g.get_point_records ()); m.v = n.v; break;
        // arguments that are part of the container itself
        case 31: if (m.v.empty ()) mc::abandon (); say ("push_back(its first record)"); f.push_back (f.get_point_records ()[0]); m.v.push_back (Rec (m.v[0])); break;
        case 32: if (m.v.size () < 2) mc::abandon (); say ("set_point_record(0, its last record)"); f.set_point_record (0, f.get_point_records ().back ()); m.v[0] = Rec (m.v.back ()); break;
        case 33: say ("set_point_records(its own)"); f.set_point_records (f.get_point_records ()); break;
    }
}
static void explore (int depth, const std::vector<int> &subset = {})
{
    World w;
    hist.clear ();
    const int init = subset.empty () ? mc::choose (4) : 2 * mc::choose (2);
    for (int t = 0; t < 2; ++t)
    {
        Cloud c = t == 0 ? make (init == 0 ? 0 : 2, init == 2 ? 0 : 2, init == 3 ? "wkt" : "", init & 1, 1) : make (init >= 2 ? 3 : 0, 1, "other", false, 2);
        // a version of their own
        if (init & 1) { c.major = 7 + t; c.minor = 200 + t; }
        w.m[t] = c;
        w.f[t] = to_spoc (c);
    }
    hist = mc::fmt ("init%d: ", init);
    for (int d = 0; d < depth; ++d)
    {
        // the two containers are interchangeable except for their initial content
        const int x = subset.empty () ? mc::choose (NOPS + 8) : mc::choose_from (subset);
        if (x < NOPS) apply (w, x, 0);
        else { static const int ON_B[8] = {0, 2, 8, 16, 18, 21, 25, 24}; apply (w, ON_B[x - NOPS], 1); }
        mc::step ();
        compare (w.f[0], w.m[0], "A"); compare (w.f[1], w.m[1], "B");
        mc::state (hash (w.m[0]) * 31 + hash (w.m[1]));
    }
    mc::note (hist);
    mc::validated ();
}
MC_SCENARIO ("sequences", 0, 0) { explore (mc::thorough () ? 4 : 3); }

// Longer sequences of fewer operations (numbers from NOPS act on the other container)
MC_SCENARIO ("long-sequences", 0, 0) { explore (mc::thorough () ? 6 : 5, {0, 1, 4, 11, 14, 16, 17, 19, 25, 27, 29, NOPS + 1}); }

// The constructors
MC_SCENARIO ("construct", 0, 0)
{
    hist = "construction";
    const int kind = mc::choose (6); const bool comp = mc::choose (2);
    static const std::vector<size_t> L {0, 1, 300, 65535, 65536, 70000};
    const std::string w (mc::choose_from (L), 'k');
    const auto v = recs (kind);
    spoc_file f;
    const int how = mc::choose (4);
    M m; m.wkt = w; m.compressed = comp; m.v = v;
    if (how == 1) { m.major = 255; m.minor = 128; }
    refusable ([&] {
        if (how == 0) f = spoc_file (w, comp, to_spoc (v));
        else if (how == 1) f = spoc_file (255, 128, w, comp, to_spoc (v));
        else if (how == 2) { spoc_file g; g.set_wkt (w); g.set_compressed (comp); g.set_point_records (to_spoc (v)); f = g; }
        else { spoc_file g; for (auto &r : v) g.push_back (to_spoc (r)); g.set_wkt (w); g.set_compressed (comp); spoc_file h (g); h.set_wkt ("x"); f.swap (g); }
    }, !consistent (v));
    if (consistent (v)) compare (f, m, "constructed"); else compare (f, M (), "untouched");
    mc::step (); mc::state (hash (m) + how); mc::validated ();
}
// Every number of extra fields against every other in add, set, and the header
MC_SCENARIO ("extra-counts", 0, 0)
{
    hist = "extra-counts";
    const int a = mc::choose (mc::thorough () ? 300 : 12), b = mc::choose (mc::thorough () ? 20 : 12);
    static const int T[12] = {0, 1, 2, 3, 127, 128, 254, 255, 256, 257, 511, 512};
    const int na = mc::thorough () ? a : T[a], nb = mc::thorough () ? (b < 12 ? T[b] : a + b - 15) : T[b];
    if (nb < 0) mc::abandon ();
    M m; m.v = {pattern_rec (1, na, 2)};
    spoc_file f; f.push_back (to_spoc (m.v[0]));
    compare (f, m, "one record");
    const Rec r = pattern_rec (2, nb, 2);
    refusable ([&] { f.push_back (to_spoc (r)); }, na != nb);
    if (na == nb) m.v.push_back (r);
    compare (f, m, "after push_back");
    refusable ([&] { f.set_point_record (0, to_spoc (r)); }, na != nb);
    if (na == nb) m.v[0] = r;
    compare (f, m, "after set_point_record");
    f.resize_extra_fields (nb); for (auto &q : m.v) q.e.resize (nb);
    compare (f, m, "after resize_extra_fields");
    mc::step (4); mc::state (hash (m)); mc::validated ();
}
// Records of different shapes anywhere among others: whatever takes a list refuses it as a whole
MC_SCENARIO ("mixed-extras", 0, 0)
{
    hist = "mixed-extras";
    const int n = mc::choose (mc::thorough () ? 7 : 6), how = mc::choose (5);
    std::vector<Rec> v;
    for (int k = 0; k < n; ++k) v.push_back (pattern_rec (k, mc::choose (3), 2));
    M m; m.wkt = "w"; m.compressed = n & 1; m.v = {pattern_rec (8, 1, 2), pattern_rec (9, 1, 2)};
    spoc_file f (m.wkt, m.compressed, to_spoc (m.v));
    const bool bad = !consistent (v);
    if (how == 0) refusable ([&] { f.set_point_records (to_spoc (v)); }, bad);
    else if (how == 1) { auto p = to_spoc (v); refusable ([&] { f.move_point_records (p); }, bad); if (bad) CK (p == to_spoc (v), "move-in-refused", "a refused move changed the vector"); }
    else if (how == 2) refusable ([&] { f = spoc_file (m.wkt, m.compressed, to_spoc (v)); }, bad);
    else if (how == 3) refusable ([&] { f = spoc_file (m.major, m.minor, m.wkt, m.compressed, to_spoc (v)); }, bad);
    else // one by one: what does not fit is refused, the others stay
    {
        for (auto &r : v)
        {
            refusable ([&] { f.push_back (to_spoc (r)); }, r.e.size () != 1);
            if (r.e.size () == 1) m.v.push_back (r);
            compare (f, m, "after push_back");
        }
    }
    if (how < 4 && !bad) m.v = v;
    compare (f, m, "filled");
    CK (f.is_valid (), "valid", "the container is not valid");
    mc::step (1 + n); mc::state (hash (m) + how * 7 + n); mc::validated ();
}
// A writer never writes a header that does not match: what get_header refuses can't be written
MC_SCENARIO ("refused-header-not-written", 0, 0)
{
    hist = "write";
    const int kind = mc::choose (4); const bool comp = mc::choose (2);
    Cloud c = make (2, kind & 1 ? 256 : 1, std::string (kind & 2 ? 65536 : 3, 'w'), comp, 1);
    const auto f = to_spoc (c);
    std::ostringstream o;
    refusable ([&] { spoc::io::write_spoc_file (o, f); }, kind != 0);
    if (kind) CK (o.str ().empty (), "partial", "a refused cloud left %zu bytes", o.str ().size ());
    mc::step (); mc::state (hash (c)); mc::validated ();
}
// The same for a header that was changed after its construction
MC_SCENARIO ("changed-header", 0, 0)
{
    hist = "change a header";
    static const std::vector<size_t> L {0, 1, 65534, 65535, 65536, 65537, 70000, 131072};
    const size_t n = mc::choose_from (L);
    const int start = mc::choose (3), extra = mc::choose (2) * 255, comp = mc::choose (2);
    spoc::header::header h (std::string (start == 2 ? 65535 : start, 'a'), extra, 7, comp);
    h.wkt = std::string (n, 'w');
    CK (h.is_valid () == (n <= 65535), "header-valid", "a header with a WKT of %zu bytes is %s", n, h.is_valid () ? "valid" : "not valid");
    std::ostringstream o;
    refusable ([&] { spoc::header::write_header (o, h); }, n > 65535);
    if (n > 65535) CK (o.str ().empty (), "partial", "a refused header left %zu bytes", o.str ().size ());
    else
    {
        std::istringstream i (o.str ());
        CK (spoc::header::read_header (i) == h, "header-read", "a header with a WKT of %zu bytes is not read back", n);
    }
    mc::step (); mc::state (n * 12 + start * 4 + (extra ? 2 : 0) + comp); mc::validated ();
}
MC_MAIN
