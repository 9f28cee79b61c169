// Conversions between the reference model and the library
#pragma once
#include "refmodel.h"
#include "spoc/spoc.h"

namespace glue
{
using spoc::point_record::point_record;
using spoc::point_record::point_records;
inline point_record to_spoc (const model::Rec &r)
{
    point_record p (r.e.size ());
    p.x = r.x; p.y = r.y; p.z = r.z; p.c = r.c; p.p = r.p; p.i = r.i; p.r = r.r; p.g = r.g; p.b = r.b;
    for (size_t k = 0; k < r.e.size (); ++k) p.extra[k] = r.e[k];
    return p;
}
inline model::Rec from_spoc (const point_record &p)
{
    model::Rec r;
    r.x = p.x; r.y = p.y; r.z = p.z; r.c = p.c; r.p = p.p; r.i = p.i; r.r = p.r; r.g = p.g; r.b = p.b;
    r.e.assign (p.extra.begin (), p.extra.end ());
    return r;
}
inline point_records to_spoc (const std::vector<model::Rec> &v) { point_records p; for (auto &r : v) p.push_back (to_spoc (r)); return p; }
inline spoc::file::spoc_file to_spoc (const model::Cloud &c) { return spoc::file::spoc_file (c.major, c.minor, c.wkt, c.compressed, to_spoc (c.v)); }
inline model::Cloud from_spoc (const spoc::file::spoc_file &f)
{
    model::Cloud c;
    c.wkt = f.get_wkt (); c.compressed = f.get_compressed (); c.major = f.get_major_version (); c.minor = f.get_minor_version ();
    for (auto &p : f.get_point_records ()) c.v.push_back (from_spoc (p));
    c.extra = c.v.empty () ? 0 : c.v[0].e.size ();
    return c;
}
// Calls f, returns whether it raised an error
template<typename F> bool throws (F &&f, std::string *what = nullptr)
{
    try { f (); }
    catch (const mc::Failure &) { throw; }
    catch (const mc::Abandon &) { throw; }
    catch (const std::exception &e) { if (what) *what = e.what (); return true; }
    return false;
}
} // namespace glue
