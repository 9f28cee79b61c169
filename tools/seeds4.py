SEEDS = []
def S(**k): SEEDS.append(k)

S(id='c18-size-ge', property='C18',
  edits=[('spoc/compression.h', 'if (d.size () != output_bytes)', 'if (d.size () < output_bytes)')],
  needs='decompressing a vector into a buffer that is shorter than the data',
  breaks='the rest of the data is dropped silently',
  cpp='''
#include "spoc/compression.h"
int main () {
    std::vector<uint8_t> v (100, 7), o (60);
    v[80] = 3;
    const auto c = spoc::compression::compress (v, -1);
    try { spoc::compression::decompress (c, &o[0], o.size ()); } catch (const std::exception &) { return 0; }
    return 1;
}
''')
S(id='c24-header-total', property='C24',
  edits=[('spoc/header.h', 's << "total_points " << h.total_points << std::endl;', 's << "total_points " << static_cast<int> (h.total_points) << std::endl;')],
  needs='a header of more than 2^31-1 points',
  breaks='the printed number of points is another one',
  cpp='''
#include "spoc/header.h"
#include <sstream>
int main () {
    std::ostringstream s;
    s << spoc::header::header ("", 1, 3000000000ull);
    return s.str ().find ("3000000000") == std::string::npos;
}
''')
S(id='c25-restore-order', property='C25',
  edits=[('spoc/extent.h', 'q.x = p.x * s.x / max_value + minp.x;', 'q.x = p.x * (s.x / max_value) + minp.x;'),
         ('spoc/extent.h', 'q.y = p.y * s.y / max_value + minp.y;', 'q.y = p.y * (s.y / max_value) + minp.y;'),
         ('spoc/extent.h', 'q.z = p.z * s.z / max_value + minp.z;', 'q.z = p.z * (s.z / max_value) + minp.z;')],
  needs='an extent whose size divided by 2^62 is subnormal',
  breaks='restored points are off by much more than the resolution',
  cpp='''
#include "spoc/extent.h"
#include <cmath>
int main () {
    using P = spoc::point::point<double>;
    P a, b, c;
    a.x = a.y = a.z = 0; b.x = b.y = b.z = 1e-304; c.x = c.y = c.z = 0.7e-304;
    spoc::extent::extent e; e.minp = a; e.maxp = b;
    const std::vector<P> v {a, b, c};
    const auto r = spoc::extent::restore (spoc::extent::rescale (v, e), e);
    for (size_t k = 0; k < v.size (); ++k) if (std::fabs (r[k].y - v[k].y) > 1e-15 * 1e-304) return 1;
    return 0;
}
''')
S(id='c02-same-columns', property='C02',
  edits=[('spoc/io.h', '''    #pragma omp parallel for
    for (size_t j = 0; j < extras.size (); ++j)
        extras[j] = compress_field (e[j]);''', '''    for (size_t j = 0; j < extras.size (); ++j)
    {
        // Extra fields often come in equal pairs
        const bool same = j > 0 && total_points > 2
            && e[j].front () == e[j - 1].front ()
            && e[j].back () == e[j - 1].back ();
        extras[j] = same ? extras[j - 1] : compress_field (e[j]);
    }''')],
  needs='two neighbouring extra fields that are equal in the first and the last record and differ between them',
  breaks='the second one is written with the values of the first',
  py='''
q = [rec(e=(1, 1)), rec(e=(2, 5)), rec(e=(3, 3))]
w, c, r = unpack(run('compress', stdin=pack(q)))
sys.exit(0 if r == q else 'compressed to %s' % r)
''')
S(id='c05-average-extras', property='C05',
  edits=[('spoc/file.h', '''    if (std::any_of (prs.cbegin(), prs.cend(),
        [&](const point_record::point_record &p)
        { return p.extra.size () != extra_fields; }))
        return false;''', '''    size_t total = 0;
    for (const auto &p : prs)
        total += p.extra.size ();
    if (total != extra_fields * prs.size ())
        return false;''')],
  needs='records of which one has more and another one fewer extra fields than the first one, by the same number',
  breaks='an inconsistent cloud is accepted',
  cpp='''
#include "spoc/file.h"
int main () {
    spoc::point_record::point_records p (3);
    p[0].extra.resize (1);
    p[1].extra.resize (2);
    try { spoc::file::spoc_file f ("", false, p); } catch (const std::exception &) { return 0; }
    return 1;
}
''')
S(id='c19-header-eq', property='C19',
  edits=[('spoc/header.h', 'if (a.total_points != b.total_points) return true;', 'if (static_cast<int> (a.total_points - b.total_points) != 0) return true;')],
  needs='two headers with numbers of points that differ by a multiple of 2^32',
  breaks='they compare neither equal nor unequal',
  cpp='''
#include "spoc/header.h"
int main () {
    using H = spoc::header::header;
    return !(H ("ab", 0, 1) != H ("ab", 0, (1ull << 32) + 1));
}
''')
S(id='c14-class-count', property='C14',
  edits=[('apps/info/info.h', 'a[s.str ()] = i.second;', 'a[s.str ()] = static_cast<uint16_t> (i.second);')],
  needs='more than 65535 records of one class',
  breaks='the number of records of the class wraps around',
  py='''
t = run('info', stdin=pack([rec(x=k % 100, c=2) for k in range(65537)])).decode()
sys.exit(0 if 'cls_002\\t65537' in t else t)
''')
