// C09: merging concatenates all inputs in order with the right point ids
#include "cli.h"
using namespace model;
using cli::Args;

static std::string fname (size_t k) { return mc::fmt ("f%zu.spoc", k); }
// 'id' < 0: by index
static Cloud merged (const std::vector<Cloud> &in, long id)
{
    Cloud c; c.wkt = in[0].wkt; c.compressed = true;
    for (size_t k = 0; k < in.size (); ++k)
    {
        c.compressed = c.compressed && in[k].compressed;
        for (auto r : in[k].v) { r.p = id < 0 ? k : id; c.v.push_back (r); c.extra = in[k].extra; }
    }
    return c;
}
static bool mixed_extras (const std::vector<Cloud> &in)
{
    size_t e = ~(size_t) 0;
    for (auto &c : in) if (!c.v.empty ()) { if (e == ~(size_t) 0) e = c.extra; else if (e != c.extra) return true; }
    return false;
}
static void merge (const std::vector<Cloud> &in, Args a, long id, bool quiet, bool judge_warning)
{
    app::clean ();
    for (size_t k = 0; k < in.size (); ++k) { app::spit (fname (k), encode (in[k])); a.push_back (fname (k)); }
    const std::string who = "spoc_merge " + cli::join (a);
    const app::Result r = app::run ("merge", a);
    std::string s; for (auto &c : in) s += "\n  " + show (c);
    if (in.size () < 2 || mixed_extras (in))
    {
        MC_CHECK (r.rc != 0 && !r.err.empty () && r.out.empty (), "not-refused", "%s: exit %d, %zu bytes out%s", who.c_str (), r.rc, r.out.size (), s.c_str ());
    }
    else
    {
        MC_CHECK (r.rc == 0, "fails", "%s: exit %d: %s%s", who.c_str (), r.rc, r.err.c_str (), s.c_str ());
        const Cloud got = cli::must_parse (r.out, who), want = merged (in, id);
        const std::string d = differ (cli::norm (want), cli::norm (got));
        MC_CHECK (d.empty (), "content", "%s: different %s\nexpected %s\noutput   %s\nfrom%s", who.c_str (), d.c_str (), show (want).c_str (), show (got).c_str (), s.c_str ());
        if (judge_warning)
        {
            bool differs = false; for (auto &c : in) differs = differs || c.wkt != in[0].wkt;
            MC_CHECK ((!quiet && differs) == (r.err.find ("WARNING") != std::string::npos), "warning", "%s: %s: '%s'%s", who.c_str (), r.err.empty () ? "no warning" : "a warning", r.err.c_str (), s.c_str ());
            if (quiet) MC_CHECK (r.err.empty (), "warning", "%s: not quiet: '%s'", who.c_str (), r.err.c_str ());
        }
        mc::state (hash (got));
    }
    for (size_t k = 0; k < in.size (); ++k) MC_CHECK (app::slurp (fname (k)) == encode (in[k]), "input-changed", "%s: %s was changed", who.c_str (), fname (k).c_str ());
    MC_CHECK (app::list ().size () == in.size (), "files", "%s: other files were created", who.c_str ());
    mc::validated ();
}
// n records whose corners cover the same area in every cloud (no area warning)
static Cloud part (size_t which, size_t n, size_t extra, const std::string &wkt, bool comp)
{
    Cloud c; c.wkt = wkt; c.compressed = comp; c.extra = n ? extra : 0;
    for (size_t k = 0; k < n; ++k)
    {
        Rec r = pattern_rec (which * 10 + k, extra, 1);
        r.x = k & 1; r.y = k & 1; r.z = which; r.p = 70 + k;
        c.v.push_back (r);
    }
    return c;
}
// Every number of inputs and of records in them
MC_SCENARIO ("sizes", 0, 0)
{
    const int files = mc::choose (mc::thorough () ? 6 : 5);
    const size_t extra = mc::choose (3);
    std::vector<Cloud> in;
    for (int k = 0; k < files; ++k) in.push_back (part (k, mc::choose (4), extra, "w", false));
    static const std::vector<long> ID {-1, 0, 1, 7, 70, 2147483647};
    const long id = files > 3 && !mc::thorough () ? ID[mc::choose (3)] : mc::choose_from (ID);
    Args a; if (id >= 0) { const int s = mc::choose (files > 3 ? 1 : 3); const std::string v = std::to_string (id); a = s == 0 ? Args {"-p", v} : s == 1 ? Args {"--point-id=" + v} : Args {"-p" + v}; }
    merge (in, a, id, false, false);
}
// Metadata: every combination of compression flags and WKTs
MC_SCENARIO ("metadata", 0, 0)
{
    const int files = 2 + mc::choose (mc::thorough () ? 3 : 2);
    static const std::vector<std::string> W {"", "a", "b", wkt_of_length (1000)};
    std::vector<Cloud> in;
    for (int k = 0; k < files; ++k)
    {
        const std::string w = W[mc::choose (files > 2 ? 3 : 4)];
        const bool comp = mc::choose (2);
        in.push_back (part (k, 2, 1, w, comp));
    }
    int ncomp = 0; for (auto &c : in) ncomp += c.compressed;
    if (mc::is_asan && ncomp > 0 && (files > 2 || ncomp == 2)) mc::abandon ();
    const bool quiet = mc::choose (2);
    merge (in, quiet ? Args {mc::choose (2) ? "-q" : "--quiet"} : Args {}, -1, quiet, true);
}
// A cloud without records counts for the metadata, and has any number of extra fields
MC_SCENARIO ("empty-inputs", 0, 0)
{
    const int files = 2 + mc::choose (2);
    std::vector<Cloud> in;
    for (int k = 0; k < files; ++k)
    {
        const int n = mc::choose (3);
        Cloud c = part (k, n, mc::choose (n ? 3 : 1), mc::choose (2) ? "a" : "b", !mc::is_asan && mc::choose (2));
        in.push_back (c);
    }
    merge (in, {}, -1, false, false);
}
// Different numbers of extra fields anywhere are an error
MC_SCENARIO ("extras", 0, 0)
{
    const int files = 2 + mc::choose (mc::thorough () ? 4 : 3);
    static const std::vector<int> E {0, 1, 2, 255};
    std::vector<Cloud> in;
    for (int k = 0; k < files; ++k) in.push_back (part (k, 1 + k % 2, mc::choose_from (E), "w", false));
    const bool quiet = mc::choose (2);
    Args a; if (quiet) a.push_back ("-q");
    merge (in, a, -1, quiet, false);
}
// Fields
MC_SCENARIO ("fields", 2, 2)
{
    std::vector<Cloud> in;
    for (int k = 0; k < 2; ++k) in.push_back (part (k, 2, 1, "w", false));
    if (mc::choose (2)) for (auto &c : in) for (size_t k = 0; k < 2; ++k) c.v[k] = pattern_rec (k, 1, 2);
    if (mc::thorough () || !mc::is_asan) for (auto &c : in) deviate (c);
    const long id = mc::choose (2) ? 5 : -1;
    merge (in, id < 0 ? Args {} : Args {"-p", "5"}, id, false, false);
}
// The same file several times, and many files
MC_SLOW_SCENARIO ("repeated", 0, 0, 100)
{
    // around the ranges of the types an id could be kept in, too
    static const std::vector<int> MANY {128, 129, 256, 257, 300};
    const int few = mc::thorough () ? 300 : 40, pick = mc::choose (few + (int) MANY.size () + (mc::is_asan ? 0 : 1));
    const int n = pick < few ? 2 + pick : pick < few + (int) MANY.size () ? MANY[pick - few] : 65540;
    app::clean ();
    const Cloud c = part (0, 2, 1, "w", false), d = part (1, 1, 1, "w", false), z = part (0, 0, 0, "w", false);
    app::spit ("a", encode (c)); app::spit ("b", encode (d)); app::spit ("z", encode (z));
    Args a; std::vector<Cloud> in;
    for (int k = 0; k < n; ++k)
    {
        const bool none = n > 1000 && k > 3 && k < n - 8; // most of very many inputs are empty
        a.push_back (none ? "z" : k % 3 == 1 ? "b" : "a"); in.push_back (none ? z : k % 3 == 1 ? d : c);
    }
    const Cloud got = cli::cloud ("merge", a, ""), want = merged (in, -1);
    cli::expect (got, want, "spoc_merge of many files", c, "content");
    mc::state (hash (got)); mc::validated ();
}
// Long inputs
MC_SCENARIO ("long", 0, 0)
{
    std::vector<Cloud> in;
    static const std::vector<int> N {0, 1001, 3001, 70001};
    if (mc::is_asan && mc::choose (2)) mc::abandon (); else
    for (int k = 0; k < 2; ++k) in.push_back (part (k, mc::choose_from (N), 1, "w", !mc::is_asan && mc::choose (2)));
    merge (in, {}, -1, false, false);
}
// Many inputs
MC_SCENARIO ("many", 0, 0)
{
    if (mc::is_asan) mc::abandon ();
    static const std::vector<int> N {10, 17, 65, 128, 257, 300};
    const int n = mc::choose_from (N), odd = mc::choose (4); // number of the input that is different
    const bool comp = mc::choose (2);
    std::vector<Cloud> in;
    for (int k = 0; k < n; ++k) in.push_back (part (k, 1 + k % 3, 1, "w", comp));
    const int at = mc::choose_from (std::vector<int> {0, 1, n / 2, n - 1});
    if (odd == 1) in[at].compressed = !comp;
    if (odd == 2) in[at].wkt = "other";
    if (odd == 3) in[at] = part (at, 0, 1, "w", comp);
    merge (in, {}, -1, false, true);
}
// The same files several times
MC_SCENARIO ("again", 0, 0)
{
    const int n = 2 + mc::choose (3), letters = 2;
    app::clean ();
    std::vector<Cloud> f; for (int k = 0; k < letters; ++k) { f.push_back (part (k, 1 + k, 1, "w", false)); app::spit (fname (k), encode (f[k])); }
    std::vector<Cloud> in; Args a;
    for (int k = 0; k < n; ++k) { const int c = mc::choose (letters); in.push_back (f[c]); a.push_back (mc::choose (2) ? fname (c) : "./" + fname (c)); }
    const Cloud want = merged (in, -1), got = cli::cloud ("merge", a, "");
    cli::expect (got, want, "spoc_merge " + cli::join (a), want, "content");
    mc::validated ();
}
// Inputs that can't be read, anywhere on the command line
MC_SCENARIO ("unreadable", 0, 0)
{
    const int files = 2 + mc::choose (3);
    const int bad = mc::choose (files);
    const int how = mc::choose (6);
    app::clean ();
    Args a;
    for (int k = 0; k < files; ++k)
    {
        const std::string s = encode (part (k, 2, 1, "w", false)), fn = fname (k);
        a.push_back (fn);
        if (k != bad) { app::spit (fn, s); continue; }
        switch (how)
        {
            case 0: break; // missing
            case 1: app::spit (fn, ""); break;
            case 2: app::spit (fn, s.substr (0, s.size () - 1)); break;
            case 3: app::spit (fn, s.substr (0, 10)); break;
            case 4: mkdir (fn.c_str (), 0700); break;
            default: app::spit (fn, "SPOX" + s.substr (4)); break;
        }
    }
    const app::Result r = app::run ("merge", a);
    MC_CHECK (r.rc != 0 && !r.err.empty () && r.out.empty (), "unreadable", "spoc_merge %s with file %d unreadable: exit %d, %zu bytes out", cli::join (a).c_str (), bad, r.rc, r.out.size ());
    app::clean ();
    mc::state (files * 100 + bad * 10 + how); mc::validated ();
}
MC_MAIN
