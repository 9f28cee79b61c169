SEEDS = []
def S(**k): SEEDS.append(k)

S(id='c11-signed-values', property='C11',
  edits=[('apps/tool/tool.h', 'std::vector<size_t> f_size_t;', 'std::vector<int64_t> f_size_t;')],
  needs='an extra field with a value above 2^63-1 that is exported and imported again',
  breaks='the exported text is refused when it is imported',
  py='''
with scratch() as d:
    big = (1 << 63) + 5
    s = pack([rec(1, e=(big,)), rec(2, e=(3,))])
    t = run('tool', '--get-field=e0', stdin=s)
    open(d + '/t', 'wb').write(t)
    p = run('tool', '--set-field=e0', '--field-filename=' + d + '/t', stdin=s, ok=False)
    sys.exit(0 if p.returncode == 0 and p.stdout == s else 'not the same cloud: %s' % p.stderr)
''')
S(id='c14-wide-range', property='C14',
  edits=[('apps/info/info.h', '''        const auto min = *std::min_element (begin (x), end (x));
        const auto max = *std::max_element (begin (x), end (x));
        s["range"] = max - min;''', '''        double min = x[0], max = x[0];
        for (const auto i : x)
        {
            min = std::min (min, static_cast<double> (i));
            max = std::max (max, static_cast<double> (i));
        }
        if (std::is_integral<T>::value)
        {
            s["range"] = static_cast<T> (max - min);
            s["min"] = static_cast<T> (min);
            s["max"] = static_cast<T> (max);
            return s;
        }
        s["range"] = max - min;''')],
  needs='JSON summary of an extra field with values above 2^53',
  breaks='the minimum and maximum are rounded',
  py='''
t = run('info', '-j', stdin=pack([rec(e=((1 << 60) + 1,)), rec(e=((1 << 60) + 3,))])).decode()
sys.exit(0 if str((1 << 60) + 1) in t and str((1 << 60) + 3) in t else t)
''')
S(id='c17-empty-subset', property='C17',
  edits=[('apps/filter/filter.h', '''    // Get the indexes into f of the unique locations
    const auto indexes''', '''    // There is nothing to do if there are no records
    if (prs.empty ())
        return T ();

    // Get the indexes into f of the unique locations
    const auto indexes''')],
  needs='removing duplicates from a cloud without records',
  breaks='the SRS and the compression flag of an empty cloud are lost',
  py='''
s = pack([], wkt='the srs', compressed=True)
sys.exit(0 if unpack(run('filter', '--unique-xyz', stdin=s)) == ('the srs', True, []) else 'metadata lost')
''')
S(id='c07-hashed-voxels', property='C07',
  edits=[('spoc/subsampling.h', '    voxel_index_set s;\n', '    std::unordered_set<size_t> s;\n    const voxel_index_hash h;\n'),
         ('spoc/subsampling.h', 'if (s.find (v[j]) != s.end ())', 'if (s.find (h (v[j])) != s.end ())'),
         ('spoc/subsampling.h', 's.insert (v[j]);', 's.insert (h (v[j]));')],
  needs='two occupied voxels of which one is 65536 voxels away in X and the other one in Y',
  breaks='two different voxels with the same hash value get one representative',
  py='''
out = unpack(run('filter', '--subsample=1', stdin=pack([rec(0, 0, 0), rec(65536, 0, 0), rec(0, 1, 0)])))[2]
sys.exit(0 if len(out) == 3 else 'records %s' % out)
''')

S(id='c12-zero-class', property='C12',
  edits=[('apps/tool/tool.h', '''        // Get a reference to the low resolution point record
        const auto &p = l.get_point_record (i);
''', '''        // Get a reference to the low resolution point record
        const auto &p = l.get_point_record (i);

        // There is nothing to copy from an unclassified record
        if (p.c == 0)
            continue;
''')],
  needs='a low resolution record of class 0 in the voxel of a high resolution record of another class',
  breaks='the class of the high resolution record is not replaced',
  py='''
with scratch() as d:
    open(d + '/h', 'wb').write(pack([rec(0, 0, 0, c=5), rec(1, 0, 0, c=5)]))
    low = pack([rec(0, 0, 0, c=0), rec(1, 0, 0, c=6)])
    out = unpack(run('tool', '--upsample-classifications=' + d + '/h', '--resolution=1', stdin=low))[2]
    sys.exit(0 if [q[3] for q in out] == [0, 6] else 'classes %s' % out)
''')
S(id='c16-mean-race', property='C16',
  edits=[('apps/tool/tool.h', '''    for (const auto &p : f.get_point_records ())
    {
        sx += p.x;
        sy += p.y;
        if (z_flag)
            sz += p.z;
    }
''', '''    const auto &prs = f.get_point_records ();
#pragma omp parallel for if (prs.size () > 30000)
    for (size_t i = 0; i < prs.size (); ++i)
    {
        sx += prs[i].x;
        sy += prs[i].y;
        if (z_flag)
            sz += prs[i].z;
    }
''')],
  needs='recentering a cloud of more than 30000 records on several threads',
  breaks='the threads add to the same sums, so that summands are lost',
  sh='''#!/bin/bash
set -e
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cat > "$t/demo.cpp" <<'E'
#include "spoc/spoc.h"
#include "apps/tool/tool.h"
int main ()
{
    std::vector<spoc::point_record::point_record> p (400000);
    for (size_t k = 0; k < p.size (); ++k) p[k].x = p[k].y = p[k].z = (double) (k % 1000);
    const spoc::file::spoc_file f ("", false, p);
    for (int n = 0; n < 20; ++n)
    {
        const auto g = spoc::tool_app::recenter (f, true);
        for (size_t k = 0; k < p.size (); ++k) if (g.get_point_record (k).x != p[k].x - 499.5) return 1;
    }
    return 0;
}
E
g++ -std=c++20 -O0 -fopenmp -I. "$t/demo.cpp" -o "$t/demo" -lz
OMP_NUM_THREADS=8 "$t/demo"
''')
