// C21: every documented option works, everything else is an error
#include "cli.h"
using namespace model;
using cli::Args;

struct Opt
{
    std::string name; char letter;       // as documented; letter 0: none
    bool arg = false; std::string value; // an argument that is accepted
    bool command = false;                // makes a command line complete without files
    std::string other = {};              // another value with another effect
    Args with = {};                      // what else it needs
};
struct App
{
    std::string name;
    std::vector<Opt> opts;
    int min_files, max_files;
    Args base;          // makes a command line without other options complete
    int accepts = -1;   // the compression flag of the input
};
static const std::vector<App> &apps ()
{
    static const std::vector<App> v {
        {"compress", {}, 0, 2, {}, 0},
        {"decompress", {}, 0, 2, {}, 1},
        {"diff", {{"header-only", 'a'}, {"data-only", 'd'}, {"field", 'f', true, "i", false, "x"}, {"reverse", 'r'}}, 2, 2, {}},
        {"filter", {{"keep-class", 'k', true, "2", false, "3"}, {"random-seed", 'a', true, "7", false, "", {"--subsample=4"}}, {"remove-class", 'r', true, "2", false, "3"}, {"subsample", 's', true, "2", false, "100"}, {"unique-xyz", 'u'}, {"remove-coords", 'c', true, "x > 1", false, "x < 1"}}, 0, 2, {}},
        {"info", {{"json", 'j'}, {"header-info", 'a'}, {"summary-info", 's'}, {"quartiles", 'q'}, {"classification-info", 'l'}, {"metric-info", 'm'}, {"compact", 'c'}}, 0, 9, {}},
        {"merge", {{"quiet", 'q'}, {"point-id", 'p', true, "5", false, "6"}}, 2, 9, {}},
        {"srs", {{"srs", 's', true, "new", false, "newer"}}, 0, 9, {}},
        {"tile", {{"force", 'f'}, {"tiles", 't', true, "2", false, "3", {}}, {"digits", 'd', true, "2", false, "4"}, {"tile-size", 's', true, "1", false, "2"}, {"tile-size-x", 'x', true, "1", false, "2"}, {"tile-size-y", 'y', true, "1", false, "2"}, {"prefix", 'p', true, "t", false, "u"}}, 0, 1, {"--prefix=z"}},
        {"tool", {{"resolution", 0, true, "1", false, "", {"--recenter-xy"}}, {"field-filename", 0, true, "field.txt", false, "", {"--set-field=c"}}, {"get-field", 'g', true, "x", true, "c"}, {"recenter-xy", 0, false, "", true}, {"recenter-xyz", 0, false, "", true}, {"resize-extra", 0, true, "3", true, "0"},
            {"set-field", 's', true, "c", true, "i", {"--field-filename=field.txt"}}, {"subtract-min-xy", 0, false, "", true}, {"subtract-min-xyz", 0, false, "", true}, {"upsample-classifications", 0, true, "high.spoc", true, "", {"--resolution=1"}}}, 0, 2, {"--resize-extra=2"}},
        {"transform", {{"random-seed", 'a', true, "7", false, "8", {"--uniform-noise=1"}}, {"add-x", 0, true, "1", true, "2"}, {"add-y", 0, true, "1", true, "2"}, {"add-z", 0, true, "1", true, "2"}, {"copy-field", 0, true, "c,p", true, "i,r"},
            {"gaussian-noise", 0, true, "1", true, "2"}, {"gaussian-noise-x", 0, true, "1", true, "2"}, {"gaussian-noise-y", 0, true, "1", true, "2"}, {"gaussian-noise-z", 0, true, "1", true, "2"}, {"quantize-xyz", 0, true, "2", true, "4"},
            {"replace", 0, true, "c,2,9", true, "c,3,9"}, {"replace-not", 0, true, "c,2,9", true, "c,3,9"}, {"rotate-x", 0, true, "90", true, "45"}, {"rotate-y", 0, true, "90", true, "45"}, {"rotate-z", 0, true, "90", true, "45"},
            {"scale-x", 0, true, "2", true, "3"}, {"scale-y", 0, true, "2", true, "3"}, {"scale-z", 0, true, "2", true, "3"}, {"set", 0, true, "c,9", true, "i,9"},
            {"uniform-noise", 0, true, "1", true, "2"}, {"uniform-noise-x", 0, true, "1", true, "2"}, {"uniform-noise-y", 0, true, "1", true, "2"}, {"uniform-noise-z", 0, true, "1", true, "2"}}, 0, 2, {"--add-x=0"}, 0},
    };
    return v;
}
static Opt common (int k) { static const Opt o[3] = {{"help", 'h'}, {"version", 'e'}, {"verbose", 'v'}}; return o[k]; }
static Cloud sample (const App &a, int which = 0)
{
    Cloud c = make (8, 2, "WKT", a.accepts == 1, 1);
    for (size_t k = 0; k < c.v.size (); ++k) { c.v[k].x = 1 + k % 3 * 2 + which; c.v[k].y = 1 + k / 3 * 3; c.v[k].z = k % 2 ? 5 : 6; }
    // two at the same place and one near them
    for (size_t k : {6, 7}) { c.v[k].x = c.v[0].x + (k - 6) * 0.5; c.v[k].y = c.v[0].y; c.v[k].z = c.v[0].z; }
    if (which == 1) c.v[5].c = 77;
    return c;
}
static const std::string version_text () { return mc::fmt ("Version %d.%d\n", (int) spoc::MAJOR_VERSION, (int) spoc::MINOR_VERSION); }
struct Outcome { app::Result r; std::vector<std::pair<std::string,std::string>> files; };
static const char *FN[] = {"a.spoc", "b.spoc", "c.spoc", "d.spoc"};
static Args with (Args a, const Args &b) { a.insert (a.end (), b.begin (), b.end ()); return a; }
// Runs in a fresh directory
static Outcome run (const App &a, const Args &args, bool inputs = true, const std::string *in = nullptr)
{
    app::clean ();
    // Where output goes to the second file, only the first is there
    const bool one = a.max_files == 2 && a.min_files == 0;
    if (inputs) for (int k = 0; k < (one ? 1 : 4); ++k) app::spit (FN[k], encode (sample (a, k == 1)));
    for (auto &s : args) { if (s.find ("field.txt") != std::string::npos) app::spit ("field.txt", "10\n20\n30\n40\n50\n60\n70\n80\n"); if (s.find ("high.spoc") != std::string::npos) app::spit ("high.spoc", encode (sample (a))); }
    Outcome o;
    o.r = app::run (a.name, args, in ? *in : encode (sample (a)));
    for (auto &fn : app::list ()) o.files.emplace_back (fn, app::slurp (fn));
    return o;
}
static bool same_effect (const Outcome &x, const Outcome &y) { return x.r.rc == y.r.rc && x.r.out == y.r.out && x.files == y.files; }
static std::string line (const App &a, const Args &v) { return "spoc_" + a.name + " " + cli::join (v); }
static void must_fail (const App &a, const Args &v, const char *key, bool inputs = true)
{
    const Outcome o = run (a, v, inputs);
    MC_CHECK (o.r.rc != 0, key, "%s: succeeds", line (a, v).c_str ());
    MC_CHECK (!o.r.err.empty (), key, "%s: fails without a message", line (a, v).c_str ());
    MC_CHECK (o.r.out.empty (), key, "%s: fails with %zu bytes on standard output", line (a, v).c_str (), o.r.out.size ());
    mc::validated ();
}
static Args files (int n) { Args f; for (int k = 0; k < n; ++k) f.push_back (k < 4 ? FN[k] : "e.spoc"); return f; }
// The ways of writing an option
static std::vector<Args> spellings (const Opt &o, const std::string &value)
{
    std::vector<Args> v;
    if (o.arg) { v = {{"--" + o.name + "=" + value}, {"--" + o.name, value}}; if (o.letter) v.push_back ({std::string ("-") + o.letter, value}); }
    else { v = {{"--" + o.name}}; if (o.letter) v.push_back ({std::string ("-") + o.letter}); }
    return v;
}

// Every option in every form, at every place: works, and has the same effect
MC_SCENARIO ("documented", 0, 0)
{
    const App &a = mc::choose_from (apps ());
    const int k = mc::choose (a.opts.size () + 1);
    const Opt o = k < (int) a.opts.size () ? a.opts[k] : common (2);
    const std::string value = !o.arg || o.other.empty () || mc::choose (2) == 0 ? o.value : o.other;
    const int nf = a.min_files + mc::choose (std::min (a.max_files, a.min_files + 2) - a.min_files + 1);
    // "srs" with files sets the SRS of the first to the second
    if (a.name == "srs" && k == 0 && nf == 1) mc::abandon ();
    Args rest = o.with;
    if (o.with.empty () && !o.command && k <= (int) a.opts.size () && !(a.name == "tile" && o.name == "prefix")) rest = a.base;
    const Args f = files (nf);
    auto forms = spellings (o, value);
    const Outcome first = run (a, with (with (forms[0], rest), f));
    const bool differs = a.name == "diff";
    MC_CHECK (differs ? first.r.rc == 0 || first.r.rc == 1 || first.r.rc == 255 : first.r.rc == 0, "documented-option", "%s: exit %d %s", line (a, with (with (forms[0], rest), f)).c_str (), first.r.rc, first.r.err.c_str ());
    if (differs) MC_CHECK (first.r.err.find ("nvalid") == std::string::npos, "documented-option", "%s: %s", line (a, with (with (forms[0], rest), f)).c_str (), first.r.err.c_str ());
    for (auto &s : forms)
        for (size_t place = 0; place <= rest.size () + f.size (); ++place)
        {
            Args v = with (rest, f);
            v.insert (v.begin () + place, s.begin (), s.end ());
            const Outcome o2 = run (a, v);
            MC_CHECK (same_effect (first, o2), "option-form", "%s and %s have different effects: exit %d, %zu bytes / exit %d, %zu bytes %s", line (a, with (with (forms[0], rest), f)).c_str (), line (a, v).c_str (), first.r.rc, first.r.out.size (), o2.r.rc, o2.r.out.size (), o2.r.err.c_str ());
            mc::validated ();
        }
    mc::state (mc::hash_str (first.r.out, mc::hash_str (a.name + o.name + value)));
}
// An option is not just accepted: it does something, another value does something else
MC_SCENARIO ("effective", 0, 0)
{
    const App &a = mc::choose_from (apps ());
    if (a.opts.empty ()) mc::abandon ();
    const Opt &o = mc::choose_from (a.opts);
    // No visible effect here by themselves
    if (o.name == "force" || o.name == "resolution" || o.name == "field-filename" || o.name == "quiet" || o.name == "data-only" || o.name == "digits" || o.name == "tiles") mc::abandon ();
    const bool noise = o.name == "random-seed";
    Args rest = o.with.empty () && !o.command && !(a.name == "tile" && o.name == "prefix") ? a.base : o.with, plain = o.command ? a.base : rest;
    if (a.name == "tile" && o.name == "prefix") plain = a.base;
    const Args f = a.name == "srs" ? Args {} : files (a.min_files);
    const Outcome with_it = run (a, with (with (spellings (o, o.value)[0], rest), f));
    if (!(o.command && a.name == "tool" && o.name == "resize-extra"))
    {
        const Outcome without = run (a, with (plain, f));
        MC_CHECK (without.r.rc == 0 || a.name == "diff" || (a.name == "tool" && o.name == "set-field"), "effective", "%s: exit %d %s", line (a, with (plain, f)).c_str (), without.r.rc, without.r.err.c_str ());
        if (!(noise && a.name == "filter")) MC_CHECK (!same_effect (with_it, without), "effective", "%s: option --%s has no effect", line (a, with (spellings (o, o.value)[0], rest)).c_str (), o.name.c_str ());
    }
    if (!o.other.empty ())
    {
        const Outcome other = run (a, with (with (spellings (o, o.other)[0], rest), f));
        MC_CHECK (!same_effect (with_it, other), "effective", "spoc_%s: --%s has the same effect with %s and %s", a.name.c_str (), o.name.c_str (), o.value.c_str (), o.other.c_str ());
    }
    mc::validated ();
}
// Help and version: anywhere among other arguments, whatever the input is
MC_SCENARIO ("help-version", 0, 0)
{
    const App &a = mc::choose_from (apps ());
    const int what = mc::choose (3); // help, version, both
    auto S = spellings (common (what == 1), "");
    Args h = S[mc::choose (S.size ())];
    if (what == 2) { auto V = spellings (common (1), ""); const Args v = V[mc::choose (V.size ())]; if (mc::choose (2)) h = with (h, v); else h = with (v, h); }
    const int k = mc::choose (a.opts.size () + 2);
    Args o;
    if (k) { const Opt p = k <= (int) a.opts.size () ? a.opts[k - 1] : common (2); auto T = spellings (p, p.value); o = T[mc::choose (T.size ())]; }
    const int nf = a.min_files ? (mc::choose (2) ? a.min_files : 0) : mc::choose (a.max_files == 1 ? 2 : 3);
    const Args f = files (nf);
    const bool inputs = mc::choose (2);
    Args v;
    switch (mc::choose (k ? 3 : 2)) { case 0: v = with (with (h, o), f); break; case 1: v = with (with (o, f), h); break; default: v = with (with (o, h), f); }
    const std::string garbage = "no cloud";
    const Outcome r = run (a, v, inputs, &garbage), none = [&] { Outcome n; app::clean (); const bool one = a.max_files == 2 && a.min_files == 0; if (inputs) for (int i = 0; i < (one ? 1 : 4); ++i) n.files.emplace_back (FN[i], encode (sample (a, i == 1))); return n; } ();
    MC_CHECK (r.r.rc == 0, "help-version", "%s: exit %d %s", line (a, v).c_str (), r.r.rc, r.r.err.substr (0, 200).c_str ());
    const bool verbose = k > (int) a.opts.size ();
    if (what == 1) MC_CHECK (r.r.out == version_text () && (verbose || r.r.err.empty ()), "version-text", "%s: '%s' '%s'", line (a, v).c_str (), r.r.out.c_str (), r.r.err.substr (0, 200).c_str ());
    if (what == 0)
    {
        MC_CHECK (r.r.out.empty (), "help-text", "%s: %zu bytes on standard output", line (a, v).c_str (), r.r.out.size ());
        std::string low = r.r.err; for (auto &ch : low) ch = static_cast<char> (tolower (static_cast<unsigned char> (ch)));
        MC_CHECK (low.find ("usage") != std::string::npos && low.find (a.name) != std::string::npos, "help-text", "%s: the help shows no usage of spoc_%s: %s", line (a, v).c_str (), a.name.c_str (), r.r.err.substr (0, 1000).c_str ());
        std::vector<Opt> all = a.opts; for (int j = 0; j < 3; ++j) all.push_back (common (j));
        for (auto &p : all) MC_CHECK (r.r.err.find ("--" + p.name) != std::string::npos && (!p.letter || r.r.err.find (std::string ("-") + p.letter) != std::string::npos), "help-text", "%s: the help does not name --%s: %s", line (a, v).c_str (), p.name.c_str (), r.r.err.substr (0, 1000).c_str ());
    }
    if (what == 2) MC_CHECK (r.r.out.empty () || r.r.out == version_text (), "help-text", "%s: '%s'", line (a, v).c_str (), r.r.out.c_str ());
    auto fs = r.files; fs.erase (std::remove_if (fs.begin (), fs.end (), [] (auto &p) { return p.first == "field.txt" || p.first == "high.spoc"; }), fs.end ());
    MC_CHECK (fs == none.files, "help-files", "%s: files were created or changed", line (a, v).c_str ());
    mc::state (mc::hash_str (r.r.err, mc::hash_str (r.r.out))); mc::validated ();
}
// Every option that the manual page names is one that the command has
MC_SCENARIO ("manual", 0, 0)
{
    const App &a = mc::choose_from (apps ());
    const char *repo = getenv ("MC_REPO");
    std::istringstream is (app::slurp (std::string (repo ? repo : "/repo") + "/apps/" + a.name + "/" + a.name + ".1.md"));
    const app::Result h = app::run (a.name, {"--help"});
    for (std::string l; std::getline (is, l); )
    {
        // \-\-name=*#*, -x *#*
        if (l.compare (0, 4, "\\-\\-") != 0) continue;
        std::string name; size_t k = 4;
        while (k < l.size () && (isalnum ((unsigned char) l[k]) || l[k] == '-')) name += l[k++];
        MC_CHECK (h.err.find ("--" + name + "=") != std::string::npos || h.err.find ("--" + name + ",") != std::string::npos || h.err.find ("--" + name + "\n") != std::string::npos, "manual", "spoc_%s: the manual names --%s, the help does not: %s", a.name.c_str (), name.c_str (), h.err.c_str ());
        if ((k = l.find (", -", k)) != std::string::npos && k + 3 < l.size ())
        {
            const size_t j = std::min (h.err.find ("--" + name + "="), h.err.find ("--" + name + ","));
            const std::string rest = j == std::string::npos ? "" : h.err.substr (j, h.err.find ('\n', j) - j);
            MC_CHECK (rest.find (std::string (", -") + l[k + 3]) != std::string::npos, "manual", "spoc_%s: the manual gives -%c for --%s, the help %s", a.name.c_str (), l[k + 3], name.c_str (), rest.c_str ());
        }
        mc::state (mc::hash_str (a.name + name)); mc::validated ();
    }
}
// Reading nothing: standard input is not touched
struct Untouched : std::streambuf { bool touched = false; int_type underflow () override { touched = true; return traits_type::eof (); } };
MC_SCENARIO ("no-reading", 0, 0)
{
    const App &a = mc::choose_from (apps ());
    auto S = spellings (common (mc::choose (2)), "");
    app::clean ();
    Untouched b;
    app::Cmd c; c.name = a.name; c.args = S[mc::choose (S.size ())]; c.inbuf = &b;
    const app::Result r = app::run (c);
    MC_CHECK (r.rc == 0 && !b.touched, "reads-input", "%s: exit %d%s", line (a, c.args).c_str (), r.rc, b.touched ? ", reads standard input" : "");
    mc::validated ();
}
// Everything that is not an option
MC_SCENARIO ("unknown-option", 0, 0)
{
    const App &a = mc::choose_from (apps ());
    std::set<char> letters {'h', 'v', 'e'};
    std::set<std::string> names {"help", "version", "verbose"};
    for (auto &o : a.opts) { letters.insert (o.letter); names.insert (o.name); }
    // All other letters, the long options of other commands, and mutilated ones
    std::vector<Args> bad;
    if (a.name == "tool") letters.insert ('f'); // not documented, but harmless
    for (int ch = 33; ch < 127; ++ch) if (!letters.count (ch) && ch != '-') bad.push_back ({std::string ("-") + (char) ch});
    std::set<std::string> others {"bogus", "helpx", "Help", "versions", "help-me", "set_field", "input", "output", "file", "recentre-xy", "h1"};
    for (auto &b : apps ()) for (auto &o : b.opts) others.insert (o.name);
    for (auto &s : others)
    {
        bool prefix = false; for (auto &n : names) prefix = prefix || n.compare (0, s.size (), s) == 0; // may be an abbreviation
        if (!prefix) { bad.push_back ({"--" + s}); bad.push_back ({"--" + s + "=1"}); }
    }
    for (auto &n : {"help", "version", "verbose"}) bad.push_back ({std::string ("--") + n + "=1"});
    for (auto &o : a.opts) if (!o.arg) bad.push_back ({"--" + o.name + "=1"});
    const Args x = bad[mc::choose (bad.size ())];
    const Args rest = with (a.base, files (a.min_files));
    const size_t place = mc::choose (rest.size () + 1);
    Args v = rest; v.insert (v.begin () + place, x.begin (), x.end ());
    must_fail (a, v, "unknown-option");
    mc::state (mc::hash_str (line (a, v)));
}
MC_SCENARIO ("missing-argument", 0, 0)
{
    const App &a = mc::choose_from (apps ());
    std::vector<Opt> w; for (auto &o : a.opts) if (o.arg) w.push_back (o);
    if (w.empty ()) mc::abandon ();
    const Opt &o = w[mc::choose (w.size ())];
    Args v = with (mc::choose (2) ? with (o.with, a.base) : Args {}, files (mc::choose (std::min (a.max_files, 2) + 1)));
    if (mc::choose (2) && o.letter) v.push_back (std::string ("-") + o.letter); else v.push_back ("--" + o.name);
    must_fail (a, v, "missing-argument");
    mc::state (mc::hash_str (line (a, v)));
}
// Every number of files
MC_SCENARIO ("files", 0, 0)
{
    const App &a = mc::choose_from (apps ());
    const int n = mc::choose (6);
    Args v = with (a.base, files (n));
    // together with every other option
    const int k = mc::choose (a.opts.size () + 2);
    if (k)
    {
        const Opt o = k == 1 ? common (2) : a.opts[k - 2];
        if (a.name == "srs" && k > 1) mc::abandon (); // has its own number of files
        const Args x = with (spellings (o, o.value)[0], o.with);
        const Args b = k == 1 || (!o.command && o.with.empty () && !(a.name == "tile" && o.name == "prefix")) ? a.base : Args {};
        v = mc::choose (2) ? with (with (b, files (n)), x) : with (with (x, b), files (n));
    }
    if (n < a.min_files || n > a.max_files) { must_fail (a, v, "number-of-files"); return; }
    if (n > 4) mc::abandon ();
    const Outcome o = run (a, v);
    if (a.name != "diff") MC_CHECK (o.r.rc == 0, "number-of-files", "%s: exit %d %s", line (a, v).c_str (), o.r.rc, o.r.err.c_str ());
    mc::state (mc::hash_str (o.r.out)); mc::validated ();
}
// Nothing to do, or nothing to do it with
MC_SCENARIO ("incomplete", 0, 0)
{
    static const std::vector<std::pair<std::string,Args>> V {
        {"tool", {}}, {"tool", {"-v"}}, {"tool", {"a.spoc"}}, {"tool", {"a.spoc", "b.spoc"}}, {"tool", {"--resolution=1"}}, {"tool", {"--field-filename=field.txt"}}, {"tool", {"--set-field=c"}}, {"tool", {"--set-field=c", "--field-filename=missing.txt"}},
        {"tool", {"--upsample-classifications=high.spoc"}}, {"tool", {"--upsample-classifications=missing.spoc", "--resolution=1"}}, {"tool", {"--recenter-xy", "--recenter-xyz"}}, {"tool", {"--recenter-xy", "-g", "x"}},
        {"transform", {}}, {"transform", {"-v"}}, {"transform", {"-a", "1"}}, {"transform", {"a.spoc"}}, {"transform", {"a.spoc", "b.spoc"}},
        {"tile", {}}, {"tile", {"-v"}}, {"tile", {"-f"}}, {"tile", {"--tiles=2"}}, {"tile", {"-s", "1", "-x", "1", "-p", "t"}}, {"tile", {"-s", "1", "-y", "1", "-p", "t"}},
        {"diff", {"-a", "-d", "a.spoc", "b.spoc"}}, {"diff", {"-a", "-f", "c", "a.spoc", "b.spoc"}}, {"diff", {"-d", "-f", "c", "a.spoc", "b.spoc"}}, {"diff", {"-f", "q", "a.spoc", "b.spoc"}},
        {"srs", {"-s", "x", "a.spoc"}}, {"srs", {"-s", "x", "a.spoc", "b.spoc", "c.spoc"}}, {"merge", {"-q", "a.spoc"}}, {"merge", {"-p", "3"}},
    };
    const auto &c = mc::choose_from (V);
    for (auto &a : apps ()) if (a.name == c.first) { must_fail (a, c.second, "incomplete"); if (a.name == "tile") MC_CHECK (app::list ().size () == 4, "incomplete", "%s: creates files", line (a, c.second).c_str ()); }
    mc::state (mc::hash_str (c.first + cli::join (c.second)));
}
// Input that is not there or cannot be read, output that cannot be written
MC_SCENARIO ("unreadable", 0, 0)
{
    const App &a = mc::choose_from (apps ());
    static const std::vector<std::string> BAD {"missing.spoc", "missing/a.spoc", "dir", "a.spoc/b", "empty", "text", "/dev/null"};
    const std::string bad = mc::choose_from (BAD);
    const bool verbose = mc::choose (2);
    app::clean ();
    const std::string data = encode (sample (a));
    app::spit ("a.spoc", data); app::spit ("b.spoc", data); app::spit ("empty", ""); app::spit ("text", "This is text, not a cloud, but long enough for a header.\n");
    if (mkdir ("dir", 0700)) {}
    Args v = a.base; if (verbose) v.push_back ("-v");
    if (a.min_files == 2) { const int where = mc::choose (2); v.push_back (where ? "a.spoc" : bad); v.push_back (where ? bad : "b.spoc"); }
    else v.push_back (bad);
    const auto before = app::list ();
    // an output file, where there can be one
    const bool out = a.min_files == 0 && a.max_files == 2 && mc::choose (2);
    if (out) v.push_back ("out.spoc");
    const app::Result r = app::run (a.name, v, data);
    MC_CHECK (r.rc != 0 && !r.err.empty (), "unreadable", "%s: exit %d '%s'", line (a, v).c_str (), r.rc, r.err.c_str ());
    MC_CHECK (r.out.empty (), "unreadable", "%s: %zu bytes on standard output", line (a, v).c_str (), r.out.size ());
    auto now = app::list (); now.erase (std::remove (now.begin (), now.end (), "out.spoc"), now.end ());
    MC_CHECK (now == before && app::slurp ("a.spoc") == data && app::slurp ("b.spoc") == data, "unreadable", "%s: files were created or changed", line (a, v).c_str ());
    if (out) MC_CHECK (!app::exists ("out.spoc") || !parse (app::slurp ("out.spoc")), "unreadable", "%s: the output file is a cloud", line (a, v).c_str ());
    mc::state (mc::hash_str (line (a, v))); mc::validated ();
}
MC_SCENARIO ("unwritable", 0, 0)
{
    std::vector<App> A; for (auto &a : apps ()) if ((a.min_files == 0 && a.max_files == 2) || a.name == "srs") A.push_back (a);
    const App a = A[mc::choose (A.size ())];
    static const std::vector<std::string> BAD {"missing/out.spoc", "dir", "a.spoc/out.spoc", "dir/"};
    const std::string bad = mc::choose_from (BAD);
    app::clean ();
    const std::string data = encode (sample (a));
    app::spit ("a.spoc", data);
    if (mkdir ("dir", 0700)) {}
    Args v = a.name == "srs" ? Args {"--srs=x"} : a.base; v.push_back ("a.spoc"); v.push_back (bad);
    const app::Result r = app::run (a.name, v, data);
    MC_CHECK (r.rc != 0 && !r.err.empty () && r.out.empty (), "unwritable", "%s: exit %d '%s', %zu bytes on standard output", line (a, v).c_str (), r.rc, r.err.c_str (), r.out.size ());
    MC_CHECK (app::list () == std::vector<std::string> {"a.spoc"} && app::slurp ("a.spoc") == data, "unwritable", "%s: files were created or changed", line (a, v).c_str ());
    mc::state (mc::hash_str (line (a, v))); mc::validated ();
}
// All argument vectors over the options (one spelling each), files, and a few wrong ones: the same as with
// all options first, or an error
MC_SCENARIO ("vectors", 0, 0)
{
    if (mc::is_asan && !mc::thorough ()) mc::abandon ();
    const App &a = mc::choose_from (apps ());
    struct Token { int kind; Args args; Args canon; }; // 0 file, 1 option, 2 wrong, 3 help or version
    std::vector<Token> T {{0, {}, {}}};
    int n = 0;
    for (auto &o : a.opts)
    {
        if (a.opts.size () > 12 && ++n % 3 != 1) continue; // commands of transform are alike
        const auto s = spellings (o, o.value);
        for (auto &x : s) if (&x == &s[0] || x != s[1]) T.push_back ({1, x, s[0]});
    }
    T.push_back ({1, {"-v"}, {"--verbose"}}); T.push_back ({2, {"--bogus"}, {}}); T.push_back ({2, {"-Z"}, {}}); T.push_back ({3, {"-h"}, {}}); T.push_back ({3, {"--version"}, {}});
    const int len = mc::thorough () && T.size () < 12 ? 4 : 3;
    Args v, opts, fs; bool wrong = false, info = false; int nf = 0;
    for (int k = 0; k < len; ++k)
    {
        const int t = mc::choose (T.size () + 1);
        if (t == (int) T.size ()) break;
        if (T[t].kind == 0) { fs.push_back (FN[nf]); v.push_back (FN[nf]); ++nf; }
        wrong = wrong || T[t].kind == 2; info = info || T[t].kind == 3;
        v = with (v, T[t].args); opts = with (opts, T[t].canon);
    }
    const Outcome o = run (a, v);
    if (info && wrong) { MC_CHECK (o.r.out.empty () || o.r.out == version_text (), "vector", "%s: unexpected output", line (a, v).c_str ()); return; }
    // surplus or missing files, or conflicting commands, may be found before or after help and version are
    if (info) { if (nf <= a.max_files && a.name != "tool" && a.name != "diff") MC_CHECK (o.r.rc == 0, "vector", "%s: exit %d %s", line (a, v).c_str (), o.r.rc, o.r.err.substr (0, 200).c_str ()); MC_CHECK (o.r.out.empty () || o.r.out == version_text (), "vector", "%s: unexpected output", line (a, v).c_str ()); return; }
    if (wrong || nf < a.min_files || nf > a.max_files)
        MC_CHECK (o.r.rc != 0 && !o.r.err.empty () && o.r.out.empty (), "vector", "%s: exit %d, '%s', %zu bytes on standard output", line (a, v).c_str (), o.r.rc, o.r.err.substr (0, 200).c_str (), o.r.out.size ());
    else
    {
        const Outcome c = run (a, with (opts, fs));
        MC_CHECK (same_effect (o, c), "vector", "%s and %s have different effects: exit %d / exit %d", line (a, v).c_str (), line (a, with (opts, fs)).c_str (), o.r.rc, c.r.rc);
        if (o.r.rc) MC_CHECK (o.r.out.empty () && (a.name == "diff" || !o.r.err.empty ()), "vector", "%s: fails with %zu bytes on standard output, '%s'", line (a, v).c_str (), o.r.out.size (), o.r.err.c_str ());
    }
    mc::state (mc::hash_str (o.r.out, o.r.rc + 1)); mc::validated ();
}
MC_MAIN
