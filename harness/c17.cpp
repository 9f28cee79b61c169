// C17: commands preserve metadata and behave the same for files and pipes
#include "cli.h"
using namespace model;
using cli::Args;

// A command that reads one cloud and outputs one
struct Form
{
    std::string name; Args args;
    int fields;          // bit mask of the fields it may change (9: any extra field)
    bool drops = false;  // may drop records
    int compress = -1;   // the compression flag it sets
    int accepts = -1;    // the compression flag it requires
    int extra = -1;      // the number of extra fields it sets
    bool wkt = false;    // may change the WKT
};
static const int X = 1, Y = 2, Z = 4, C = 8, XY = 3, XYZ = 7;
static const std::vector<Form> &forms ()
{
    static const std::vector<Form> v {
        {"compress", {}, 0, false, 1, 0}, {"decompress", {}, 0, false, 0, 1},
        {"filter", {}, 0}, {"filter", {"--keep-class=2", "-k", "3"}, 0, true}, {"filter", {"-r", "2"}, 0, true}, {"filter", {"--unique-xyz"}, 0, true},
        {"filter", {"--subsample=2"}, 0, true}, {"filter", {"-s", "4", "-a", "7"}, 0, true}, {"filter", {"--remove-coords", "x > 2"}, 0, true},
        {"tool", {"--recenter-xy"}, XY}, {"tool", {"--recenter-xyz"}, XYZ}, {"tool", {"--subtract-min-xy"}, XY}, {"tool", {"--subtract-min-xyz"}, XYZ},
        {"tool", {"--resize-extra=1"}, 1 << 9, false, -1, -1, 1}, {"tool", {"--resize-extra=0"}, 1 << 9, false, -1, -1, 0},
        {"tool", {"--set-field=c", "--field-filename=@FIELD"}, C}, {"tool", {"-s", "i", "-f", "@FIELD"}, 1 << 5}, {"tool", {"--upsample-classifications=@LOW", "--resolution=1"}, C},
        {"transform", {"--add-x=1.5"}, X, false, -1, 0}, {"transform", {"--scale-y=2", "--add-z=-1"}, Y | Z, false, -1, 0}, {"transform", {"--rotate-z=90"}, XY, false, -1, 0},
        {"transform", {"--quantize-xyz=0.5"}, XYZ, false, -1, 0}, {"transform", {"--set=c,7"}, C, false, -1, 0}, {"transform", {"--replace=c,2,3"}, C, false, -1, 0}, {"transform", {"--replace-not=r,0,1"}, 1 << 6, false, -1, 0},
        {"transform", {"--copy-field=c,p"}, 1 << 4, false, -1, 0}, {"transform", {"--gaussian-noise=0.5", "--random-seed=3"}, XYZ, false, -1, 0}, {"transform", {"--uniform-noise-x=0.5"}, X, false, -1, 0},
        {"srs", {"--srs=new srs"}, 0, false, -1, -1, -1, true}, {"srs", {"-s", ""}, 0, false, -1, -1, -1, true},
    };
    return v;
}
static const Cloud &low () { static const Cloud c = [] { Cloud d = make (3, 0, "low", false, 1); for (auto &r : d.v) r.c = 40 + r.p; return d; } (); return c; }
// Files that commands refer to besides their input
static Args resolve (const Args &a)
{
    Args b;
    for (auto s : a)
    {
        size_t k;
        if ((k = s.find ("@FIELD")) != std::string::npos) s.replace (k, 6, "field.txt");
        if ((k = s.find ("@LOW")) != std::string::npos) s.replace (k, 4, "low.spoc");
        b.push_back (s);
    }
    return b;
}
static std::string field_text (size_t n) { std::string s; for (size_t k = 0; k < n; ++k) s += std::to_string (3 * k + 1) + "\n"; return s; }
static void side_files (const Form &f, size_t n)
{
    app::clean ();
    for (auto &s : f.args) { if (s.find ("@FIELD") != std::string::npos) app::spit ("field.txt", field_text (n)); if (s.find ("@LOW") != std::string::npos) app::spit ("low.spoc", encode (low ())); }
}
static bool fits (const Form &f, const Cloud &c) { return (f.accepts < 0 || f.accepts == (int) c.compressed) && (c.v.size () || f.name != "tool" || f.extra >= 0); }
static Args with (Args a, std::initializer_list<std::string> more) { for (auto &s : more) a.push_back (s); return a; }
static Cloud usual (size_t n, size_t extra, const std::string &wkt, bool comp)
{
    Cloud c = make (n, extra, wkt, comp, 1);
    for (size_t k = 0; k < n; ++k) { c.v[k].x = k % 4; c.v[k].y = k % 2; c.v[k].z = k / 4; if (k % 3 == 2) { c.v[k].x = c.v[0].x; c.v[k].y = c.v[0].y; c.v[k].z = c.v[0].z; } }
    return c;
}

// What may not change does not change
MC_SCENARIO ("metadata", 0, 0)
{
    const Form &f = mc::choose_from (forms ());
    static const std::vector<size_t> E {0, 1, 2, 3, 9, 100, 255}, N {1, 2, 3, 0, 8, 40}, W {0, 1, 5, 255, 256, 1000, 65535};
    const int kind = mc::choose (3);
    const size_t e = kind == 0 || mc::thorough () ? mc::choose_from (E) : 2, n = kind == 1 || mc::thorough () ? mc::choose_from (N) : 5, w = kind == 2 || mc::thorough () ? mc::choose_from (W) : 12;
    if (mc::thorough () && kind) mc::abandon ();
    if (mc::is_asan && n * e > 2000) mc::abandon ();
    const Cloud in = usual (n, e, wkt_of_length (w), mc::choose (2));
    if (!fits (f, in)) mc::abandon ();
    side_files (f, n);
    // (the output of upsampling is the other cloud, see C12)
    if (app::exists ("low.spoc")) mc::abandon ();
    const Cloud out = cli::cloud (f.name, resolve (f.args), encode (in));
    const std::string who = "spoc_" + f.name + " " + cli::join (f.args) + "\ninput:  " + show (in) + "\noutput: " + show (out) + "\n";
    if (!f.wkt) MC_CHECK (out.wkt == in.wkt, "wkt", "%sthe WKT changes", who.c_str ());
    MC_CHECK (out.compressed == (f.compress < 0 ? in.compressed : f.compress), "compression", "%scompression flag", who.c_str ());
    MC_CHECK (out.major == in.major && out.minor == in.minor, "version", "%sversion", who.c_str ());
    if (!out.v.empty ()) MC_CHECK (out.extra == (f.extra < 0 ? in.extra : f.extra), "extra", "%snumber of extra fields", who.c_str ());
    if (!f.drops) MC_CHECK (out.v.size () == in.v.size (), "records", "%snumber of records", who.c_str ());
    size_t k = 0;
    std::vector<bool> used (in.v.size ());
    for (size_t j = 0; j < out.v.size (); ++j, ++k)
    {
        if (f.drops)
        {
            // with a random seed the order is arbitrary
            for (k = 0; k < in.v.size () && (used[k] || !same (in.v[k], out.v[j])); ++k) ;
            MC_CHECK (k < in.v.size (), "records", "%srecord %zu is not one of the input", who.c_str (), j);
            used[k] = true;
            continue;
        }
        for (int g = 0; g < 9; ++g) if (!(f.fields >> g & 1)) MC_CHECK (same_field (in.v[k], out.v[j], g), "field", "%srecord %zu: field %s changes", who.c_str (), j, field_name (g).c_str ());
        if (!(f.fields >> 9 & 1)) MC_CHECK (in.v[k].e == out.v[j].e, "field", "%srecord %zu: extra fields change", who.c_str (), j);
    }
    mc::state (hash (out)); mc::validated ();
}
// Every path, every position of the verbose option: the same bytes and the same status
MC_SCENARIO ("paths", 0, 0)
{
    std::vector<Form> F = forms ();
    for (const char *s : {"x", "c", "e0", "q"}) F.push_back ({"tool", {std::string ("--get-field=") + s}, 0});
    for (Args a : std::vector<Args> {{}, {"-j"}, {"-q"}, {"--compact"}, {"-j", "-m", "-s"}}) F.push_back ({"info", a, 0});
    F.push_back ({"srs", {}, 0});
    const Form &f = F[mc::choose (F.size ())];
    const bool text = f.name == "info" || (f.name == "srs" && f.args.empty ()) || (f.name == "tool" && f.args[0][2] == 'g');
    static const std::vector<Cloud> IN = [] {
        std::vector<Cloud> v;
        for (int comp = 0; comp < 2; ++comp) for (size_t n : {0, 1, 3, 200}) for (size_t e : {0, 2}) { if (n || !e) v.push_back (usual (n, e, "WKT[1]", comp)); }
        v.push_back (make (3, 1, std::string ("\0a\n\xff", 4), false, 1)); v.push_back (make (3, 1, "", true, 1));
        return v;
    } ();
    const int which = mc::choose (IN.size () + 6);
    // The input may also be damaged or missing
    const Cloud in = which < (int) IN.size () ? IN[which] : IN[which & 1 ? 3 : 10];
    std::string data = encode (in);
    const int damage = which - (int) IN.size ();
    if (damage == 0 || damage == 1) data.resize (data.size () - 1);
    if (damage == 2 || damage == 3) data.resize (9);
    if (damage == 4) data.clear ();
    if (damage == 5) data[0] = 'x';
    const int verbose = mc::choose (3); // none, before, between the file names
    const int pre = mc::choose (3);     // the output file: absent, longer, empty
    if (text && pre) mc::abandon ();
    auto vb = [&] (Args a) { if (verbose == 1) a.insert (a.begin (), "-v"); if (verbose == 2) a.push_back ("--verbose"); return a; };
    side_files (f, in.v.size ());
    app::spit ("in.spoc", data);
    const Args a = resolve (f.args);
    const auto before = app::list ();
    const std::string who = "spoc_" + f.name + " " + cli::join (a) + (verbose ? " verbose" : "") + mc::fmt (", input (damage %d) ", damage) + show (in) + "\n";
    const app::Result r0 = app::run (f.name, a, data);
    const app::Result rv = verbose ? app::run (f.name, vb (a), data) : r0;
    MC_CHECK (rv.rc == r0.rc && rv.out == r0.out, "verbose", "%sverbose changes standard output or the status: %zu bytes, exit %d / %zu bytes, exit %d", who.c_str (), r0.out.size (), r0.rc, rv.out.size (), rv.rc);
    if (r0.rc) MC_CHECK (!r0.err.empty () && (r0.out.empty () || f.name == "transform"), "error", "%sexit %d with '%s' and %zu bytes", who.c_str (), r0.rc, r0.err.c_str (), r0.out.size ());
    else MC_CHECK (damage < 0 || (f.name == "srs" && f.args.empty ()), "damaged", "%ssucceeds", who.c_str ());
    const bool one_file = !(f.name == "srs" && !f.args.empty ());
    if (one_file)
    {
        const app::Result r1 = app::run (f.name, with (vb (a), {"in.spoc"}));
        MC_CHECK (r1.rc == r0.rc && r1.out == r0.out, "file-input", "%sfrom standard input: exit %d, %zu bytes; from a file: exit %d, %zu bytes %s", who.c_str (), r0.rc, r0.out.size (), r1.rc, r1.out.size (), r1.err.c_str ());
        MC_CHECK (app::list () == before, "files", "%sfiles were created or removed", who.c_str ());
    }
    if (!text)
    {
        if (pre) app::spit ("out.spoc", pre == 1 ? std::string (100000, 'y') : std::string ());
        const app::Result r2 = app::run (f.name, with (vb (a), {"in.spoc", "out.spoc"}));
        MC_CHECK (r2.rc == r0.rc && r2.out.empty (), "file-output", "%sto standard output: exit %d; to a file: exit %d, %zu bytes on standard output %s", who.c_str (), r0.rc, r2.rc, r2.out.size (), r2.err.c_str ());
        if (!r0.rc) MC_CHECK (app::slurp ("out.spoc") == r0.out, "file-output", "%sthe output file and standard output differ: %zu, %zu bytes", who.c_str (), app::slurp ("out.spoc").size (), r0.out.size ());
        auto now = app::list (); now.erase (std::remove (now.begin (), now.end (), "out.spoc"), now.end ());
        MC_CHECK (now == before, "files", "%sother files were created or removed", who.c_str ());
    }
    MC_CHECK (app::slurp ("in.spoc") == data, "input-changed", "%sthe input file was changed", who.c_str ());
    if (app::exists ("field.txt")) MC_CHECK (app::slurp ("field.txt") == field_text (in.v.size ()), "input-changed", "%sthe field file was changed", who.c_str ());
    if (app::exists ("low.spoc")) MC_CHECK (app::slurp ("low.spoc") == encode (low ()), "input-changed", "%sthe low resolution file was changed", who.c_str ());
    mc::state (mc::hash_str (r0.out, r0.rc + 1)); mc::validated ();
}
// The input file named as the output, too, directly or by another name of the same file
MC_SCENARIO ("in-place", 0, 0)
{
    const std::vector<Form> &F = forms ();
    const Form &f = F[mc::choose (F.size ())];
    static const std::vector<Cloud> IN {usual (3, 2, "WKT[1]", false), usual (3, 2, "WKT[1]", true), usual (0, 0, "", false), usual (200, 0, "x", false)};
    const Cloud &in = mc::choose_from (IN);
    const int alias = mc::choose (3), verbose = mc::choose (2);
    app::clean ();
    side_files (f, in.v.size ());
    const std::string data = encode (in);
    app::spit ("in.spoc", data);
    if (alias == 1) MC_CHECK (symlink ("in.spoc", "out.spoc") == 0, "harness", "symlink");
    if (alias == 2) MC_CHECK (link ("in.spoc", "out.spoc") == 0, "harness", "link");
    Args a = resolve (f.args);
    const app::Result r0 = app::run (f.name, a, data);
    if (verbose) a.insert (a.begin (), "-v");
    const app::Result r = app::run (f.name, with (a, {"in.spoc", alias ? "out.spoc" : "in.spoc"}));
    const std::string who = "spoc_" + f.name + " " + cli::join (a) + (alias == 1 ? " in.spoc (link to it)" : alias == 2 ? " in.spoc (hard link to it)" : " in.spoc in.spoc") + "\ninput: " + show (in) + "\n";
    MC_CHECK (r.out.empty (), "in-place", "%s%zu bytes on standard output", who.c_str (), r.out.size ());
    // Either it gives what it gives otherwise, or it is an error and the input is as it was
    if (r.rc == 0) MC_CHECK (r0.rc == 0 && app::slurp ("in.spoc") == r0.out, "in-place", "%ssucceeds, but the file is not what the command prints (%zu, %zu bytes)", who.c_str (), app::slurp ("in.spoc").size (), r0.out.size ());
    else MC_CHECK (!r.err.empty () && app::slurp ("in.spoc") == data, "in-place", "%sexit %d '%s', and the input file was changed (%zu bytes of %zu)", who.c_str (), r.rc, r.err.c_str (), app::slurp ("in.spoc").size (), data.size ());
    mc::state (mc::hash_str (r0.out, alias)); mc::validated ();
}
// Verbose output of the commands with several files
MC_SCENARIO ("verbose-files", 0, 0)
{
    const int cmd = mc::choose (5);
    app::clean ();
    const Cloud a = usual (mc::choose (4), 1, "A", mc::choose (2)), b = usual (mc::choose (4), 1, mc::choose (2) ? "A" : "B", mc::choose (2));
    const std::string da = encode (a), db = encode (b);
    const char *name = cmd == 0 ? "merge" : cmd == 1 ? "diff" : cmd == 2 ? "info" : cmd == 3 ? "srs" : "tile";
    Args base; if (cmd == 4) base = {"-f", "--tile-size=1", "--prefix=t"};
    auto run = [&] (bool v, std::vector<std::pair<std::string,std::string>> &files) {
        app::clean (); app::spit ("a.spoc", da); app::spit ("b.spoc", db);
        Args x = base; if (v) x.push_back ("-v");
        x.push_back ("a.spoc"); if (cmd != 4) x.push_back ("b.spoc");
        const app::Result r = app::run (name, x);
        for (auto &fn : app::list ()) files.emplace_back (fn, app::slurp (fn));
        return r;
    };
    std::vector<std::pair<std::string,std::string>> f0, f1;
    const app::Result r = run (false, f0), v = run (true, f1);
    MC_CHECK (r.rc == v.rc && r.out == v.out, "verbose", "spoc_%s: verbose changes standard output or the status: exit %d, %zu bytes / exit %d, %zu bytes", name, r.rc, r.out.size (), v.rc, v.out.size ());
    MC_CHECK (f0 == f1, "verbose", "spoc_%s: verbose changes the files", name);
    for (auto &p : f1) if (p.first == "a.spoc" || p.first == "b.spoc") MC_CHECK (p.second == (p.first == "a.spoc" ? da : db), "input-changed", "spoc_%s: %s was changed", name, p.first.c_str ());
    mc::state (mc::hash_str (r.out)); mc::validated ();
}
// The SRS: any text
static void srs_set (const Cloud &in, const std::string &text, int form)
{
    const std::string data = encode (in);
    Args a; if (form & 1) a = {"-s", text}; else a = {"--srs=" + text};
    Cloud out;
    app::clean ();
    if (form & 2)
    {
        app::spit ("in.spoc", data);
        const app::Result r = app::run ("srs", with (a, {"in.spoc", "out.spoc"}));
        MC_CHECK (r.rc == 0 && r.out.empty (), "fails", "spoc_srs --srs=(%zu bytes): exit %d %s", text.size (), r.rc, r.err.c_str ());
        out = cli::must_parse (app::slurp ("out.spoc"), "spoc_srs");
        MC_CHECK (app::slurp ("in.spoc") == data, "input-changed", "spoc_srs: the input file was changed");
    }
    else out = cli::cloud ("srs", a, data);
    Cloud want = in; want.wkt = text;
    cli::expect (out, want, mc::fmt ("spoc_srs --srs=(%zu bytes)", text.size ()), in, "srs-set");
    const app::Result g = app::run ("srs", {}, encode (out));
    MC_CHECK (g.rc == 0 && g.out == text + "\n", "srs-get", "spoc_srs prints '%s' for '%s'", g.out.substr (0, 200).c_str (), text.substr (0, 200).c_str ());
    mc::state (hash (out)); mc::validated ();
}
MC_SCENARIO ("srs-texts", 0, 0)
{
    // all strings over an alphabet, all bytes, and lengths up to the limit
    static const std::string A = "a \n'\"\\\xff-";
    const int kind = mc::choose (3);
    std::string s;
    if (kind == 0) { const int n = mc::choose (mc::thorough () ? 5 : 4); for (int k = 0; k < n; ++k) s += A[mc::choose (A.size ())]; }
    else if (kind == 1) { s = std::string (1, (char) (1 + mc::choose (255))); if (mc::choose (2)) s = "x" + s + "y"; }
    else
    {
        static const std::vector<size_t> L {1, 2, 15, 16, 17, 254, 255, 256, 257, 1023, 1024, 4095, 4096, 4097, 32767, 32768, 65534, 65535};
        s = std::string (mc::choose_from (L), 'q'); for (size_t k = 0; k < s.size (); ++k) s[k] = 33 + (k * 7 + k / 97) % 90;
    }
    const int form = mc::choose (4);
    srs_set (make (2, 1, mc::choose (2) ? "" : "old", mc::choose (2), 1), s, form);
}
MC_SCENARIO ("srs-clouds", 1, 1)
{
    if (mc::is_asan && !mc::thorough ()) mc::abandon ();
    Cloud in = make (mc::choose (3), mc::choose (3), wkt_of_length (mc::choose_from (std::vector<size_t> {0, 3, 300})), mc::choose (2), mc::choose (3));
    deviate (in);
    srs_set (in, mc::choose (2) ? "" : "new", mc::choose (4));
}
MC_SCENARIO ("srs-too-long", 0, 0)
{
    static const std::vector<size_t> L {65536, 65537, 70000, 131000};
    const std::string s (mc::choose_from (L), 'q');
    const std::string data = encode (make (mc::choose (3), 1, "old", mc::choose (2), 1));
    app::clean ();
    if (mc::choose (2)) cli::refused ("srs", {"--srs=" + s}, data, "srs-too-long");
    else { app::spit ("in.spoc", data); cli::refused ("srs", {"-s", s, "in.spoc", "out.spoc"}, "", "srs-too-long"); }
    mc::validated ();
}
// Getting the SRS of any list of files
MC_SCENARIO ("srs-get", 0, 0)
{
    static const std::vector<std::string> W {"", "one", "two\nlines", std::string ("n\0l", 3), wkt_of_length (65535)};
    const int n = 1 + mc::choose (mc::thorough () ? 4 : 3);
    Args a; std::string want, who;
    app::clean ();
    int bad = -1;
    for (int k = 0; k < n; ++k)
    {
        const int w = mc::choose (W.size () + 1);
        const std::string fn = mc::fmt ("f%d", k); a.push_back (fn);
        if (w == (int) W.size ()) { if (bad < 0) bad = k; if (k % 2) app::spit (fn, "no cloud"); continue; }
        app::spit (fn, encode (make (w, 1, W[w], (w + k) & 1, 1)));
        if (bad < 0) want += W[w] + "\n";
    }
    if (mc::choose (2)) a.insert (a.begin () + n / 2, "-v");
    const app::Result r = app::run ("srs", a);
    if (bad < 0) MC_CHECK (r.rc == 0 && r.out == want, "srs-get", "spoc_srs %s: exit %d, '%s'", cli::join (a).c_str (), r.rc, r.out.substr (0, 200).c_str ());
    else MC_CHECK (r.rc != 0 && !r.err.empty () && want.compare (0, r.out.size (), r.out) == 0, "srs-get", "spoc_srs %s with an unreadable file: exit %d, '%s', '%s'", cli::join (a).c_str (), r.rc, r.out.substr (0, 200).c_str (), r.err.c_str ());
    mc::state (mc::hash_str (r.out)); mc::validated ();
}
// The same files several times, many files
MC_SCENARIO ("srs-again", 0, 0)
{
    app::clean ();
    const int kind = mc::choose (2), n = kind ? mc::choose_from (std::vector<int> {10, 65, 300}) : 2 + mc::choose (3);
    Args a; std::string want;
    for (int k = 0; k < 3; ++k) app::spit (mc::fmt ("f%d", k), encode (make (k, 1, mc::fmt ("wkt %d", k), false, 1)));
    for (int k = 0; k < n; ++k) { const int f = kind ? k % 3 : mc::choose (2); a.push_back (mc::fmt ("f%d", f)); want += mc::fmt ("wkt %d\n", f); }
    const app::Result r = app::run ("srs", a);
    MC_CHECK (r.rc == 0 && r.out == want, "srs-get", "spoc_srs %s: exit %d, '%s'", cli::join (a).c_str (), r.rc, r.out.substr (0, 200).c_str ());
    mc::validated ();
}
// Setting the SRS needs an input and an output, or none
MC_SCENARIO ("srs-files", 0, 0)
{
    const int n = mc::choose (5);
    if (n == 0 || n == 2) mc::abandon ();
    app::clean ();
    const std::string d = encode (make (2, 0, "old", false, 1));
    Args a {"-s", "new"}; for (int k = 0; k < n; ++k) { app::spit (mc::fmt ("f%d", k), d); a.push_back (mc::fmt ("f%d", k)); }
    cli::refused ("srs", a, d, "srs-files");
    for (int k = 0; k < n; ++k) MC_CHECK (app::slurp (mc::fmt ("f%d", k)) == d, "input-changed", "spoc_srs %s changes f%d", cli::join (a).c_str (), k);
    mc::validated ();
}
// Chains of commands through pipes and through files
MC_SCENARIO ("chains", 0, 0)
{
    if (mc::is_asan && !mc::thorough ()) mc::abandon ();
    static const std::vector<Form> F = [] { std::vector<Form> v; for (auto &f : forms ()) { bool side = false; for (auto &s : f.args) side = side || s.find ('@') != std::string::npos; if (!side) v.push_back (f); } return v; } ();
    const Cloud in = usual (mc::choose_from (std::vector<size_t> {6, 0, 1}), mc::choose (2), "WKT", mc::choose (2));
    const int n = mc::thorough () ? 3 : 2;
    const std::string data = encode (in);
    app::clean ();
    app::spit ("f0", data);
    std::string pipe = data, who;
    int prc = 0, frc = 0;
    for (int k = 0; k < n; ++k)
    {
        const Form &f = F[mc::choose (F.size ())];
        who += " | spoc_" + f.name + " " + cli::join (f.args);
        const app::Result r = app::run (f.name, f.args, pipe);
        pipe = r.out; prc = r.rc;
        const app::Result s = app::run (f.name, with (f.args, {mc::fmt ("f%d", k), mc::fmt ("f%d", k + 1)}));
        frc = s.rc;
        MC_CHECK (prc == frc, "chain", "%s: exit %d through pipes, exit %d through files", who.c_str (), prc, frc);
        if (prc) break;
        MC_CHECK (app::slurp (mc::fmt ("f%d", k + 1)) == pipe, "chain", "%s: output through pipes and files differs (%zu, %zu bytes)", who.c_str (), pipe.size (), app::slurp (mc::fmt ("f%d", k + 1)).size ());
        mc::state (pipe);
    }
    MC_CHECK (app::slurp ("f0") == data, "input-changed", "%s: the first input was changed", who.c_str ());
    mc::validated ();
}
MC_MAIN
