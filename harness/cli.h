// Helpers for checks of commands that output clouds
#pragma once
#include "app.h"
#include "refmodel.h"

namespace cli
{
using model::Cloud;
using model::Rec;
using Args = std::vector<std::string>;
inline std::string join (const Args &a) { std::string s; for (auto &x : a) s += (s.empty () ? "" : " ") + (x.find (' ') == std::string::npos && !x.empty () ? x : "'" + x + "'"); return s; }
// A cloud without records declares no extra fields
inline Cloud norm (Cloud c) { if (c.v.empty ()) c.extra = 0; return c; }
// The cloud in these bytes, which must be nothing else
inline Cloud must_parse (const std::string &bytes, const std::string &who)
{
    const auto p = model::parse (bytes);
    MC_CHECK (p.has_value (), "not-a-cloud", "%s: the output (%zu bytes) is not a cloud", who.c_str (), bytes.size ());
    MC_CHECK (p->end == bytes.size (), "surplus-bytes", "%s: %zu bytes follow the cloud", who.c_str (), bytes.size () - p->end);
    return p->c;
}
// Runs a command that must succeed and output a cloud
inline Cloud cloud (const std::string &name, const Args &args, const std::string &in)
{
    const app::Result r = app::run (name, args, in);
    const std::string who = "spoc_" + name + " " + join (args);
    MC_CHECK (r.rc == 0, "fails", "%s: exit %d: %s", who.c_str (), r.rc, r.err.substr (0, 300).c_str ());
    return must_parse (r.out, who);
}
// Runs a command that must fail with a message and no data
inline void refused (const std::string &name, const Args &args, const std::string &in, const char *key)
{
    const app::Result r = app::run (name, args, in);
    const std::string who = "spoc_" + name + " " + join (args);
    MC_CHECK (r.rc != 0, key, "%s: succeeds with %zu bytes of output", who.c_str (), r.out.size ());
    MC_CHECK (!r.err.empty (), key, "%s: fails without a message", who.c_str ());
}
inline void expect (const Cloud &got, const Cloud &want, const std::string &who, const Cloud &in, const char *key)
{
    const std::string d = model::differ (norm (want), norm (got));
    MC_CHECK (d.empty (), key, "%s\ninput:    %s\nexpected: %s\noutput:   %s\ndifferent: %s", who.c_str (), model::show (in).c_str (), model::show (want).c_str (), model::show (got).c_str (), d.c_str ());
}
} // namespace cli
