// C16: results do not depend on the number of threads or their schedule, and there are no data races
#include "cli.h"
#include "glue.h"
#include "omp_rt.h"
#include <numeric>
#include <omp.h>
using P = spoc::point::point<double>;
using Points = std::vector<P>;
using Idx = std::vector<size_t>;
using Records = spoc::point_record::point_records;
namespace rs = spoc::radius_search;

static const ort::Explorer FULL {mc::choose, mc::dev}; // all orders, bounded preemptions
static const ort::Explorer FEW {mc::dev, mc::dev};     // a bounded number of departures from the default schedule

// Like FULL for the third region on, which is the search itself; indexing has its own scenario
static const ort::Explorer THIRD {[] (int n) { return ort::stats ().regions < 3 ? mc::dev (n) : mc::choose (n); }, mc::dev};

static std::string run (const std::function<std::string ()> &op)
{
    try { return op (); }
    catch (const mc::Failure &) { throw; }
    catch (const std::exception &e) { return std::string ("exception: ") + e.what (); }
}
static int threads () { return mc::choose_from (mc::thorough () ? std::vector<int> {2, 3, 4, 5} : std::vector<int> {2, 3}); }
static void check (const std::string &who, int T, const std::function<std::string ()> &op, const ort::Explorer &e = FULL)
{
    ort::begin (1, e);
    const std::string want = run (op);
    ort::end ();
    ort::begin (T, e);
    const std::string got = run (op);
    const std::string race = ort::end ();
    const ort::Stats s = ort::stats ();
    mc::step (s.points + 1);
    mc::state (mc::hash_str (who, s.schedule + T));
    if (mc::tracing ()) mc::note (mc::fmt ("%s on %d threads: %llu parallel regions, %llu scheduling decisions, %llu memory accesses recorded", who.c_str (), T, (unsigned long long) s.regions, (unsigned long long) s.points, (unsigned long long) s.accesses));
    MC_CHECK (race.empty (), "race", "%s on %d threads: %s", who.c_str (), T, race.c_str ());
    MC_CHECK (got == want, "schedule", "%s: on %d threads the result is\n%s\non one thread it is\n%s", who.c_str (), T, got.substr (0, 1500).c_str (), want.substr (0, 1500).c_str ());
    mc::validated ();
}
static P pt (double x, double y, double z) { P p; p.x = x; p.y = y; p.z = z; return p; }
template<typename T> static std::string text (const T &p) { std::string s; for (auto &q : p) s += mc::fmt ("%a %a %a\n", q.x, q.y, q.z); return s; }
static std::string bytes (const spoc::file::spoc_file &f) { std::ostringstream o; spoc::io::write_spoc_file (o, f); return o.str (); }
static std::string show (const spoc::file::spoc_file &f) { return model::show (glue::from_spoc (f), 64); }
static std::string text (const std::vector<spoc::voxel::voxel_index> &v) { std::string s; for (auto &i : v) s += mc::fmt ("%zu %zu %zu\n", i.i, i.j, i.k); return s; }

static const std::vector<size_t> SIZES {0, 1, 2, 3, 5};
static void write_compressed (size_t n, size_t extra, int pattern)
{
    const auto f = glue::to_spoc (model::make (n, extra, "w", true, pattern));
    check (mc::fmt ("writing %zu compressed records with %zu extra fields", n, extra), threads (), [&] { return bytes (f); });
}
MC_SCENARIO ("write-compressed", 1, 2)
{
    const size_t n = mc::choose_from (SIZES), extra = mc::choose (mc::thorough () ? 6 : 5);
    write_compressed (n, extra, mc::choose (2));
}
MC_SCENARIO ("write-compressed-deep", 2, 3) { write_compressed (2, 1 + mc::choose (2), 1); }
MC_SCENARIO ("read-compressed", 0, 0)
{
    const size_t n = mc::choose_from (SIZES), extra = mc::choose (5);
    const int pattern = mc::choose (3), how = mc::choose (2);
    const std::string b = model::encode (model::make (n, extra, "w", true, pattern));
    check (mc::fmt ("reading %zu compressed records with %zu extra fields", n, extra), threads (), [&] {
        std::istringstream i (b);
        return show (how ? spoc::io::read_spoc_file (i) : spoc::io::read_spoc_file_compressed (i)); });
}
MC_SCENARIO ("uncompressed", 0, 0)
{
    const size_t n = mc::choose_from (SIZES), extra = mc::choose (3);
    const auto c = model::make (n, extra, "w", false, 1);
    const auto f = glue::to_spoc (c); const std::string b = model::encode (c);
    check (mc::fmt ("writing %zu records with %zu extra fields", n, extra), threads (), [&] { return bytes (f); });
    check (mc::fmt ("reading %zu records with %zu extra fields", n, extra), threads (), [&] { std::istringstream i (b); return show (spoc::io::read_spoc_file (i)); });
}
// Damaged compressed input: the same error
MC_SCENARIO ("damaged", 1, 2)
{
    std::string b = model::encode (model::make (3, 2, "", true, 1));
    const int what = mc::choose (3);
    if (what == 0) b.resize (b.size () - 1 - mc::choose (40));
    else b[b.size () - 2 - mc::choose (60)] ^= what == 1 ? 1 : 0x40;
    check ("reading a damaged compressed file", threads (), [&] { std::istringstream i (b); return show (spoc::io::read_spoc_file (i)); });
}
static Points line (size_t n) { Points p; for (size_t k = 0; k < n; ++k) p.push_back (pt (0.5 * k - 1, (k % 2) * 0.75, -0.25 * (k % 3))); return p; }
static Records recs (size_t n, size_t extra = 1) { Records p; for (const auto &q : model::make (n, extra, "", false, 1).v) p.push_back (glue::to_spoc (q)); for (size_t k = 0; k < n; ++k) { p[k].x = 0.5 * k - 1; p[k].y = (k % 2) * 0.75; p[k].z = -0.25 * (k % 3); } return p; }
MC_SCENARIO ("voxel-indexes", 0, 0)
{
    const size_t n = 1 + mc::choose (6);
    const double res = mc::choose_from (std::vector<double> {0.5, 1});
    const Points p = line (n); const Records q = recs (n);
    const int kind = mc::choose (5), T = threads ();
    const auto e = spoc::extent::get_extent (p);
    Idx idx; for (size_t k = 0; k < 2 * n; ++k) idx.push_back ((k * 3 + 1) % n);
    static const char *K[] = {"points", "points in an extent", "points by index", "records", "records by index"};
    check (mc::fmt ("voxel indexes of %zu %s", n, K[kind]), T, [&] { return text (
        kind == 0 ? spoc::voxel::get_voxel_indexes (p, res) : kind == 1 ? spoc::voxel::get_voxel_indexes (p, e, res) : kind == 2 ? spoc::voxel::get_voxel_indexes (p, idx, res)
        : kind == 3 ? spoc::voxel::get_voxel_indexes (q, res) : spoc::voxel::get_voxel_indexes (q, idx, res)); });
}
// Every variant of the search, with operations that other threads can interrupt
static std::string lists (const std::vector<Idx> &f) { std::string s; for (auto &v : f) { for (auto x : v) s += std::to_string (x) + " "; s += "\n"; } return s; }
static int op_mode;
template<typename T> static std::string search (int kind, const T &p, const Idx &pi, const Idx &ni, double r, size_t lim)
{
    const size_t nq = kind < 2 ? p.size () : pi.size ();
    std::vector<Idx> f (nq); std::vector<int> calls (nq, 0);
    long total = 0; int bad = 0;
    Idx order;
    const auto op = [&] (size_t i, const Idx &n) {
        ort::yield ();
        if (i >= nq) { ++bad; return; } // a race is reported as one
        ++calls[i];
        f[i] = n;
        if (op_mode == 1)
        {
            #pragma omp critical
            { order.push_back (i); total += n.size (); }
        }
        else if (op_mode == 2)
        {
            #pragma omp atomic
            total += n.size ();
        }
    };
    if (kind == 0) rs::radius_search_all (p, r, op, lim);
    else if (kind == 1) { f = rs::radius_search_get_neighbors (p, r); calls.assign (nq, 1); }
    else if (kind == 2) rs::radius_search_indexes (p, pi, r, op, lim);
    else if (kind == 3) rs::radius_search_all_neighbors (p, pi, r, op, lim);
    else rs::radius_search (p, pi, ni, r, op, lim);
    std::string s = lists (f);
    for (int c : calls) s += c == 1 ? "" : mc::fmt ("an operation is called %d times\n", c);
    std::sort (order.begin (), order.end ());
    s += mc::fmt ("total %ld, out of range %d\n", total, bad) + lists ({order});
    return s;
}
static void radius_search (size_t n)
{
    const int kind = mc::choose (5), type = mc::choose (2), T = threads ();
    op_mode = kind == 1 ? 0 : mc::choose (3);
    const double r = mc::choose_from (std::vector<double> {0.5, 4});
    const size_t lim = mc::choose_from (std::vector<size_t> {1, 32});
    const Points p = line (n); const Records q = recs (n);
    Idx pi, ni; for (size_t k = 0; k < n; ++k) { pi.push_back (n - 1 - k); if (k % 2) pi.push_back (k); ni.push_back (k * 2 % n); }
    static const char *K[] = {"radius_search_all", "radius_search_get_neighbors", "radius_search_indexes", "radius_search_all_neighbors", "radius_search"};
    check (mc::fmt ("%s of %zu points", K[kind], n), T, [&] { return type ? search (kind, q, pi, ni, r, lim) : search (kind, p, pi, ni, r, lim); }, THIRD);
}
MC_SCENARIO ("radius-search", 1, 2) { radius_search (mc::choose (5)); }
MC_SCENARIO ("radius-search-deep", 2, 3) { radius_search (3); }
template<typename T> static void affine (int op, T &p)
{
    namespace a = spoc::affine;
    switch (op)
    {
        case 0: a::add_x (p, 0.3); break;
        case 1: a::add_y (p, -2); break;
        case 2: a::add_z (p, 1e9); break;
        case 3: { typename T::value_type v; v.x = 1; v.y = 0.1; v.z = -7; a::add (p, v); break; }
        case 4: a::rotate_x (p, 30); break;
        case 5: a::rotate_y (p, 45); break;
        case 6: a::rotate_z (p, -100); break;
        case 7: a::scale_x (p, 3); break;
        case 8: a::scale_y (p, 0.1); break;
        case 9: a::scale_z (p, -1); break;
        case 10: spoc::utils::quantize (p, 0.3); break;
        default: spoc::utils::quantize (p, 2); break;
    }
}
MC_SCENARIO ("affine", 0, 0)
{
    const int op = mc::choose (12), type = mc::choose (2), T = threads ();
    const size_t n = mc::choose (mc::thorough () ? 9 : 7);
    check (mc::fmt ("affine operation %d on %zu points", op, n), T, [&] {
        if (type) { Records p = recs (n); affine (op, p); spoc::file::spoc_file f ("", false, p); return bytes (f); }
        Points p = line (n); affine (op, p); return text (p); });
}
MC_SCENARIO ("affine-sequence", 0, 0)
{
    const int a = mc::choose (12), b = mc::choose (12), T = threads ();
    check (mc::fmt ("affine operations %d and %d", a, b), T, [&] { Points p = line (3); affine (a, p); affine (b, p); return text (p); });
}
MC_SCENARIO ("streams", 1, 2)
{
    const size_t n = mc::choose_from (std::vector<size_t> {0, 1, 100, 40000});
    const int level = mc::choose_from (std::vector<int> {1, 6, 9}), T = threads ();
    std::string in; for (size_t k = 0; k < n; ++k) in += (char) (model::mix (k) & 3);
    check (mc::fmt ("compressing and decompressing %zu bytes", n), T, [&] {
        std::stringstream i (in), c, o; spoc::compression::compress (i, c, level); spoc::compression::decompress (c, o); return c.str () + o.str (); });
}
// Everything else of the library that goes through the points
template<typename T> static std::string xyz (const T &q) { return mc::fmt ("%a %a %a\n", q.x, q.y, q.z); }
static const int OTHERS = 14;
template<typename T> static std::string other (int op, const T &p)
{
    const auto e = spoc::extent::get_extent (p);
    const auto list = [] (const Idx &v) { return lists ({v}); };
    switch (op)
    {
        case 0: return xyz (spoc::utils::get_center (p));
        case 1: { auto m = e; m.maxp.x = (e.minp.x + e.maxp.x) / 2; return text (spoc::utils::crop (p, m)); }
        case 2: { auto m = e; m.minp.z = (e.minp.z + e.maxp.z) / 2; return text (spoc::utils::crop (p, m)); }
        case 3: return xyz (e.minp) + xyz (e.maxp);
        case 4: { std::string s; for (auto &v : spoc::voxel::get_voxel_index_set (spoc::voxel::get_voxel_indexes (p, 1.0))) s += mc::fmt ("%zu %zu %zu\n", v.i, v.j, v.k); return s; }
        case 5: { std::string s; for (auto &v : spoc::voxel::get_voxel_index_map (spoc::voxel::get_voxel_indexes (p, 1.0))) s += mc::fmt ("%zu %zu %zu: ", v.first.i, v.first.j, v.first.k) + list (v.second); return s; }
        case 6: return list (spoc::subsampling::get_subsample_indexes (p, 1.0, 0));
        case 7: return list (spoc::subsampling::get_subsample_indexes (p, 0.7, 5));
        case 8: return list (spoc::subsampling::get_unique_xyz_indexes (p, 0));
        case 9: return list (spoc::subsampling::get_unique_xyz_indexes (p, 9));
        case 10: return text (spoc::subsampling::subsample_points (p, 1.0, 0));
        default: break;
    }
    std::vector<P> q; for (auto &r : p) q.push_back (pt (r.x, r.y, r.z));
    const auto small = spoc::extent::rescale (q, e);
    std::string s;
    if (op == 11) { for (auto &r : small) s += mc::fmt ("%llu %llu %llu\n", (unsigned long long) r.x, (unsigned long long) r.y, (unsigned long long) r.z); return s; }
    if (op == 12) return text (spoc::extent::restore (small, e));
    q.insert (q.end (), q.begin (), q.end ());
    return xyz (spoc::utils::get_center (q)) + list (spoc::subsampling::get_unique_xyz_indexes (q, 0));
}
MC_SCENARIO ("others", 1, 2)
{
    const int op = mc::choose (OTHERS), type = mc::choose (2), T = threads ();
    const size_t n = 1 + mc::choose (mc::thorough () ? 8 : 6);
    const Points p = line (n); const Records q = recs (n);
    check (mc::fmt ("library function %d on %zu %s", op, n, type ? "records" : "points"), T, [&] { return type ? other (op, q) : other (op, p); });
}
// Clouds as objects
MC_SCENARIO ("objects", 1, 2)
{
    const int op = mc::choose (5), T = threads ();
    const size_t n = mc::choose (5), extra = mc::choose (3);
    const auto f = glue::to_spoc (model::make (n, extra, "w", false, 1));
    check (mc::fmt ("cloud operation %d on %zu records", op, n), T, [&] {
        spoc::file::spoc_file g = f;
        switch (op)
        {
            case 0: g.resize_extra_fields (3); break;
            case 1: g.set_point_records (f.get_point_records ()); break;
            case 2: { Records r = f.get_point_records (); std::reverse (r.begin (), r.end ()); g.move_point_records (r); break; }
            case 3: { std::string s; for (auto v : f.get_x ()) s += mc::fmt ("%a ", v); for (auto v : f.get_z ()) s += mc::fmt ("%a ", v); for (auto v : f.get_i ()) s += mc::fmt ("%u ", (unsigned) v); for (size_t k = 0; n && k < extra; ++k) for (auto v : f.get_extra (k)) s += mc::fmt ("%llu ", (unsigned long long) v); return s; }
            default: for (size_t k = 0; k < n; ++k) g.set_point_record (k, f.get_point_record (n - 1 - k)); break;
        }
        return show (g) + (g.is_valid () ? "" : " not valid"); });
}
// Threads of the caller that each work on their own objects
static const int JOBS = 13;
static std::string job (int k, size_t n)
{
    const auto c = model::make (n, k % 3, "job", k % 2, k % 3);
    const Points p = line (n + 2);
    switch (k)
    {
        case 0: case 1: return bytes (glue::to_spoc (c));
        case 2: case 3: { std::istringstream i (model::encode (c)); return show (spoc::io::read_spoc_file (i)); }
        case 4: return text (spoc::voxel::get_voxel_indexes (p, 0.5));
        case 5: return lists (rs::radius_search_get_neighbors (p, 0.75 + 0.1 * n));
        case 6: { Points q = p; affine (4, q); affine (11, q); return text (q); }
        case 7: { std::stringstream i (std::string (100 + n, 'x')), z, o; spoc::compression::compress (i, z, 6); spoc::compression::decompress (z, o); return z.str () + o.str (); }
        case 8: return other (7, p);
        case 9: return other (9, p);
        case 10: { std::istringstream i (model::encode (c)); const auto h = spoc::header::read_header (i); std::ostringstream o; spoc::header::write_header (o, h); for (size_t j = 0; !h.compressed && j < h.total_points; ++j) spoc::point_record::write_point_record (o, spoc::point_record::read_point_record (i, h.extra_fields)); return o.str (); }
        case 11: { spoc::file::spoc_file f = glue::to_spoc (c), g ("", false); g = f; g.resize_extra_fields (2); g.swap (f); return show (f) + show (g); }
        default: { std::string b = model::encode (c); b.resize (b.size () - 1); std::istringstream i (b); return run ([&] { return show (spoc::io::read_spoc_file (i)); }); }
    }
}
static void independent (const std::vector<int> &jobs, const std::vector<size_t> &sizes, int T, const ort::Explorer &e)
{
    std::string who = "independent jobs"; for (size_t k = 0; k < jobs.size (); ++k) who += mc::fmt (" %d of %zu", jobs[k], sizes[k]);
    check (who, T, [&] {
        std::vector<std::string> r (jobs.size ());
        #pragma omp parallel for schedule(static, 1)
        for (size_t k = 0; k < jobs.size (); ++k) { r[k] = job (jobs[k], sizes[k]); ort::yield (); }
        std::string s; for (auto &x : r) s += x + "\n----\n";
        return s; }, e);
}
MC_SCENARIO ("independent", 1, 2)
{
    const int a = mc::choose (JOBS), b = mc::choose (JOBS), same = mc::choose (2);
    independent ({a, b}, {3, same ? 3ul : 5ul}, 2, FEW);
}
MC_SCENARIO ("independent-three", 1, 2)
{
    const int a = mc::choose (JOBS), b = mc::choose (3);
    independent ({a, (a + b) % JOBS, a}, {1, 2, 3}, 3, FEW);
}
// Clouds large enough for code that does small ones on one thread
MC_SLOW_SCENARIO ("large", 1, 2, 100)
{
    const int what = mc::choose (7 + OTHERS);
    const size_t n = 70000;
    const int T = mc::choose_from (std::vector<int> {2, 3});
    static Records q; static std::string enc; static Points p;
    if (q.empty ())
    {
        auto c = model::make (n, 2, "", true, 1);
        for (size_t k = 0; k < c.v.size (); ++k) { c.v[k].x = (double) (k % 97); c.v[k].y = (double) (k % 89) * 0.5; c.v[k].z = (double) (k / 97 % 10); }
        q = glue::to_spoc (c.v);
        enc = model::encode (c);
        for (auto &r : q) p.push_back (pt (r.x, r.y, r.z));
    }
    check (mc::fmt ("large cloud, operation %d", what), T, [&] {
        if (what >= 7) return other (what - 7, p);
        switch (what)
        {
            case 0: return bytes (spoc::file::spoc_file ("", true, q));
            case 1: { std::istringstream i (enc); return show (spoc::io::read_spoc_file (i)) + std::to_string (i.tellg ()); }
            case 2: return text (spoc::voxel::get_voxel_indexes (p, 2.0));
            case 3: { Points a = p; affine (4, a); affine (10, a); affine (3, a); return text (a); }
            case 4: return bytes (spoc::file::spoc_file ("", false, q));
            case 5: { const Points a (p.begin (), p.begin () + 3000); return lists (rs::radius_search_get_neighbors (a, 1.5)); }
            default: { Records a = q; affine (6, a); affine (11, a); affine (8, a); return bytes (spoc::file::spoc_file ("", false, a)); }
        } }, FEW);
}
// The commands, whatever they do in parallel
struct C { const char *name; cli::Args args; bool compressed = false; };
static const std::vector<C> &commands ()
{
    static const std::vector<C> v {
        {"compress", {}}, {"decompress", {}, true}, {"decompress", {"-v"}, true},
        {"filter", {"--unique-xyz"}}, {"filter", {"--subsample=1"}}, {"filter", {"-s", "1", "-e", "7"}}, {"filter", {"--keep-class=1,2"}}, {"filter", {"--remove-class=1"}}, {"filter", {"-c", "MinX0"}}, {"filter", {"--unique-xyz"}, true},
        {"info", {"--json", "--compact"}}, {"info", {"-s", "-l", "-m", "-q"}, true},
        {"tool", {"-C", "-r", "1"}}, {"tool", {"--recenter-xy"}}, {"tool", {"--recenter-xyz"}}, {"tool", {"--subtract-min-xyz"}}, {"tool", {"--get-field=e1"}}, {"tool", {"--subtract-min-xy"}, true},
        {"transform", {"--add-x=1", "--rotate-z=30", "--scale-y=2", "--quantize-xyz=0.5"}}, {"transform", {"--gaussian-noise-xyz=1", "--random-seed=3"}}, {"transform", {"--set=c,3", "--replace=c,3,4"}},
        {"merge", {"a.spoc", "b.spoc"}}, {"diff", {"a.spoc", "b.spoc"}}, {"diff", {"-s", "a.spoc", "a.spoc"}}, {"srs", {"--set-srs=x"}},
        {"tile", {"--tile-size=1", "--prefix=t"}}, {"tile", {"--tiles=2", "--prefix=t"}, true},
    };
    return v;
}
static void command (const C &c, model::Cloud cl, int T, const ort::Explorer &e)
{
    mc::exact_addresses = true;
    const std::string in = model::encode (cl);
    model::Cloud d = cl; d.compressed = false; d.v[1].i ^= 1;
    app::Cmd m; m.name = c.name; m.args = c.args; m.in = in;
    std::string who = "spoc_" + m.name + " " + cli::join (m.args);
    check (who, T, [&] {
        app::clean ();
        cl.compressed = false;
        app::spit ("a.spoc", model::encode (cl)); app::spit ("b.spoc", model::encode (d)); app::spit ("in.spoc", in);
        if (m.name == "tile" && m.args.back () != "in.spoc") m.args.push_back ("in.spoc");
        const app::Result r = app::run_inproc (m);
        std::string s = mc::fmt ("exit %d\n", r.rc) + r.err + r.out;
        for (auto &f : app::list ()) s += "\n" + f + ": " + app::slurp (f);
        return s; }, e);
}
MC_SCENARIO ("commands", 2, 3)
{
    const C &c = mc::choose_from (commands ());
    const int T = mc::choose_from (std::vector<int> {2, 3});
    model::Cloud cl = model::make (5, 2, "srs", c.compressed, 1);
    for (size_t k = 0; k < 5; ++k) { cl.v[k].x = 0.5 * (k % 3); cl.v[k].y = k % 2; cl.v[k].z = 0; cl.v[k].c = k % 3; }
    command (c, cl, T, FEW);
}
// Commands on clouds that are large enough to be worth several threads
MC_SLOW_SCENARIO ("commands-large", 0, 1, 100)
{
    const C &c = mc::choose_from (commands ());
    const int T = mc::thorough () ? mc::choose_from (std::vector<int> {2, 4}) : 2;
    static model::Cloud cl;
    if (cl.v.empty ())
    {
        cl = model::make (70000, 1, "srs", false, 1);
        for (size_t k = 0; k < cl.v.size (); ++k) { cl.v[k].x = (double) (k % 251) * 0.5; cl.v[k].y = (double) (k / 251 % 7); cl.v[k].z = (double) (k % 3); cl.v[k].c = k % 5; }
    }
    model::Cloud in = cl; in.compressed = c.compressed;
    command (c, in, T, FEW);
}
MC_MAIN
