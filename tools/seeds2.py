SEEDS = []
def S(**k): SEEDS.append(k)

S(id='c01-wkt-signed', property='C01',
  edits=[('spoc/header.h', '    uint16_t len = 0;\n', '    int16_t len = 0;\n')],
  needs='an SRS string of more than 32767 characters',
  breaks='the length is read as a negative number and the file cannot be read',
  py='''
w = 'W' * 40000
p = run('srs', stdin=pack([rec(1)], wkt=w), ok=False)
sys.exit(0 if p.returncode == 0 and p.stdout.decode().strip() == w else 'SRS not read')
''')
S(id='c10-copy-width', property='C10',
  edits=[('apps/transform/transform.h', '        size_t src = 0;\n', '        unsigned src = 0;\n')],
  needs='copying between two extra fields a value of more than 32 bits',
  breaks='the upper half of the copied value is lost',
  py='''
out = unpack(run('transform', '--copy-field=e0,e1', stdin=pack([rec(e=(1 << 40 | 5, 0))])))[2]
sys.exit(0 if out[0][9] == (1 << 40 | 5, 1 << 40 | 5) else 'fields %s' % out)
''')
S(id='c12-upsample-break', property='C12',
  edits=[('apps/tool/tool.h', 'continue; // No, skip to next voxel', 'break; // No, there is nothing to assign')],
  needs='a low resolution record that lies in no occupied voxel, followed by one that does',
  breaks='the classes of all later low resolution records are not assigned',
  py='''
with scratch() as d:
    hi = [rec(x, 0, 0) for x in (0, 1, 5)]
    lo = [rec(3, 0, 0, c=5), rec(5, 0, 0, c=6)]
    open(d + '/h', 'wb').write(pack(hi))
    open(d + '/l', 'wb').write(pack(lo))
    out = unpack(run('tool', '--upsample-classifications=1', '--resolution=1', d + '/l', d + '/h', ok=True))[2]
    sys.exit(0 if [q[3] for q in out] == [0, 0, 6] else 'classes %s' % out)
''')
S(id='c14-quartile', property='C14',
  edits=[('apps/info/info.h', 's["q3"] = y[3 * n / 4];', 's["q3"] = y[n / 4 * 3];')],
  needs='JSON output of quartiles for a number of records that is not a multiple of four',
  breaks='the third quartile in the JSON summary is that of another record',
  py='''
t = run('info', '-s', '-q', '-j', stdin=pack([rec(k) for k in range(7)])).decode()
m = re.search(r"'x' : \\{.*?'q3' : ([0-9.]+)", t, re.S)
sys.exit(0 if m and float(m.group(1)) == 5 else t)
''')
S(id='c15-float-distance', property='C15',
  edits=[('spoc/radius_search.h', 'const double distance = spoc::point::distance', 'const float distance = spoc::point::distance')],
  needs='a pair of points whose distance differs from the radius by less than the precision of a float',
  breaks='points slightly outside the radius are returned',
  cpp=r'''
#include "spoc/spoc.h"
int main ()
{
    std::vector<spoc::point_record::point_record> p;
    p.push_back ({0, 0, 0}); p.push_back ({1 + 1e-9, 0, 0});
    const auto n = spoc::radius_search::radius_search_get_neighbors (p, 1.0);
    return n[0].size () == 1 ? 0 : 1;
}
''')
S(id='c16-shared-index', property='C16',
  edits=[('spoc/io.h', '''    #pragma omp parallel for
    for (size_t n = 0; n < prs.size (); ++n)
    {
        if (!x.empty ())''', '''    size_t j = 0;
    #pragma omp parallel for
    for (size_t n = 0; n < prs.size (); ++n)
    {
        if (!x.empty ())'''),
         ('spoc/io.h', 'for (size_t j = 0; j < prs[n].extra.size (); ++j)', 'for (j = 0; j < prs[n].extra.size (); ++j)')],
  needs='two threads that read records with extra fields from a compressed file at the same time',
  breaks='the index of the inner loop is shared by the threads, so extra fields are skipped',
  env='OMP_NUM_THREADS=8', flags='-O1',
  cpp=r'''
#include "spoc/spoc.h"
#include <sstream>
int main ()
{
    for (int n = 0; n < 12; ++n)
    {
        std::vector<spoc::point_record::point_record> p;
        for (size_t k = 0; k < 60000; ++k) p.push_back (spoc::point_record::point_record (1, 2, 3, 0, 0, 0, 0, 0, 0, {k + 1, k + 2, k + 3, k + 4, k + 5, k + 6}));
        spoc::file::spoc_file f ("", true, p);
        std::stringstream s;
        spoc::io::write_spoc_file (s, f);
        if (spoc::io::read_spoc_file (s).get_point_records () != p) return 1;
    }
    return 0;
}
''')
S(id='c16-rotate-shared', property='C16',
  edits=[('spoc/affine.h', '''    // Process the points
#pragma omp parallel for
    for (size_t i = 0; i < p.size (); ++i)
    {
        const double x = p[i].x;
        const double y = p[i].y;
        const double z = p[i].z;
''', '''    double x = 0.0;
    double y = 0.0;
    double z = 0.0;

    // Process the points
#pragma omp parallel for
    for (size_t i = 0; i < p.size (); ++i)
    {
        x = p[i].x;
        y = p[i].y;
        z = p[i].z;
''')],
  needs='two threads that rotate points at the same time',
  breaks='the coordinates of one point are mixed with those of another',
  env='OMP_NUM_THREADS=8', flags='-O1',
  cpp=r'''
#include "spoc/spoc.h"
#include "spoc/affine.h"
int main ()
{
    for (int n = 0; n < 20; ++n)
    {
        std::vector<spoc::point::point<double>> p (400000);
        for (size_t k = 0; k < p.size (); ++k) p[k].x = p[k].y = p[k].z = k;
        spoc::affine::rotate_z (p, 0);
        for (size_t k = 0; k < p.size (); ++k) if (p[k].x != k || p[k].y != k || p[k].z != k) return 1;
    }
    return 0;
}
''')
S(id='c23-extra-first', property='C23',
  edits=[('spocpy/spocpy/spocpy.cpp', '.def("getPointRecords", &spoc::file::spoc_file::get_point_records)',
          '.def("getPointRecords", &spoc::file::spoc_file::get_point_records, py::return_value_policy::reference_internal)'),
         ('spocpy/spocpy/spocpy.cpp', '.def("getPointRecord", &spoc::file::spoc_file::get_point_record)',
          '.def("getPointRecord", &spoc::file::spoc_file::get_point_record, py::return_value_policy::reference_internal)')],
  needs='a record that is changed in Python after it was taken from a cloud and without being set',
  breaks='changing the copy changes the cloud itself',
  sh='''#!/bin/bash
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
PYTHONPATH=/repo/_build/py/lib PYTHONDONTWRITEBYTECODE=1 /usr/bin/python3 - <<'E'
import importlib.util, glob, sys
s = importlib.util.spec_from_file_location('spocpy_cpp', glob.glob('/repo/_build/py/lib/spocpy/spocpy_cpp*.so')[0])
m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
f = m.SpocFile('', False)
p = m.PointRecord(); p.x = 1.0
f.setPointRecords([p])
r = f.getPointRecord(0); r.x = 9.0
q = f.getPointRecords()[0]; q.x = 8.0
sys.exit(0 if f.getX() == [1.0] else 1)
E
''')
S(id='c04-field-text', property='C04',
  edits=[('apps/tool/tool.h', '''            case 'i': os << p.i << std::endl; break;''', '''            case 'i': os << p.i << '\\n'; break;''')],
  needs='exporting the intensities to a device that is full',
  breaks='the values stay in the buffer, the write error is not noticed and the command reports success',
  py='''
p = subprocess.run([BIN + 'spoc_tool', '-g', 'i'], input=pack([rec(i=5)]), stdout=open('/dev/full', 'wb'), stderr=subprocess.DEVNULL)
sys.exit(0 if p.returncode else 'write error not reported')
''')
S(id='c21-quiet-arg', property='C21',
  edits=[('apps/merge/merge_cmd.h', '"hveqp:"', '"hvep:q"'), ('apps/diff/diff_cmd.h', '"hveadf:r"', '"hvead:f:r"')],
  needs='the short form of the data-only option of spoc_diff',
  breaks='-d takes the next argument, the first file name, as its value',
  py='''
with scratch() as d:
    open(d + '/a', 'wb').write(pack([rec(1)]))
    p = run('diff', '-d', d + '/a', d + '/a', ok=False)
    sys.exit(p.returncode)
''')
