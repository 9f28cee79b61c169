SEEDS = []
def S(**k): SEEDS.append(k)

S(id='c01-last-chunk', property='C01',
  edits=[('spoc/io.h', ': total_points - i;', ': total_points % records_per_buffer;')],
  needs='an uncompressed file whose number of records is an exact multiple of the number that fits into the read buffer',
  breaks='the last buffer of records is not read and comes back as zeros',
  py='''
r = [rec(k + 1, 2, 3, c=k) for k in range(75)]
with scratch() as d:
    open(d + '/a.spoc', 'wb').write(pack(r))
    out = run('filter', d + '/a.spoc')
    sys.exit(0 if unpack(out)[2] == r else 'records differ')
''')

S(id='c02-compress-tail', property='C02',
  edits=[('spoc/compression.h', '''            output_buffer.begin () + compressed_bytes);
    } while (deflator.s.avail_out == 0);

    return output;
}

inline std::vector<uint8_t> compress (''', '''            output_buffer.begin () + compressed_bytes);
    } while (deflator.s.avail_in != 0);

    return output;
}

inline std::vector<uint8_t> compress (''')],
  needs='a field whose compressed data ends a little behind a multiple of 1 MB, so that the output buffer is full when the input is used up',
  breaks='the end of the compressed field is missing, the file cannot be read back',
  cpp=r'''
#include "spoc/compression.h"
#include <random>
int main ()
{
    // incompressible data of lengths around the size of the output buffer
    for (size_t n = (1 << 20) - 700; n <= (1 << 20) + 10; n += 10)
    {
        std::mt19937 g (n);
        std::vector<uint8_t> v (n);
        for (auto &b : v) b = g ();
        try { if (spoc::compression::decompress (spoc::compression::compress (v)) != v) return 1; }
        catch (...) { return 2; }
    }
    return 0;
}
''')

S(id='c15-subset-origin', property='C15',
  edits=[('spoc/voxel.h', '''    // get extent so we can get the minimum point
    const auto e = spoc::extent::get_extent (points);
''', '''    // get extent of the referenced points so we can get the minimum point
    std::vector<typename T::value_type> subset;
    subset.reserve (point_indexes.size ());
    for (const auto n : point_indexes)
        subset.push_back (points[n]);
    const auto e = spoc::extent::get_extent (subset);
''')],
  needs='a search in which the search points and the neighbors are different subsets with different lower corners',
  breaks='the voxel grids of search points and neighbors do not line up and neighbors are missed',
  cpp=r'''
#include "spoc/spoc.h"
#include <mutex>
int main ()
{
    using P = spoc::point_record::point_record;
    std::vector<P> p;
    for (int k = 0; k < 20; ++k) p.push_back (P (k, 0, 0));
    std::vector<size_t> idx {15};
    size_t n = 0;
    spoc::radius_search::radius_search_all_neighbors (p, idx, 1.5,
        [&] (size_t, const std::vector<size_t> &v) { n = v.size (); }, 100);
    return n == 3 ? 0 : 1;
}
''')

S(id='c08-tile-stride', property='C08',
  edits=[('apps/tile/tile.h', 'const size_t stride = tile_size_x > 0.0 ? dx / tile_size_x + 1.0 : 1.0;',
          'const size_t stride = tile_size_x > 0.0 ? std::max (std::ceil (dx / tile_size_x), 1.0) : 1.0;')],
  needs='an extent in X that is an exact multiple of the tile size, and more than one row of tiles',
  breaks='the last column of one row and the first column of the next get the same tile number and are written into one file',
  py='''
r = [rec(x, y, 0) for y in (0, 15) for x in (0, 20)]
with scratch() as d:
    open(d + '/a.spoc', 'wb').write(pack(r))
    run('tile', '-s', 10, '-p', d + '/t', d + '/a.spoc')
    n = [f for f in os.listdir(d) if f.startswith('t')]
    sys.exit(0 if len(n) == 4 else 'tiles: %s' % n)
''')

S(id='c08-first-exists', property='C08',
  edits=[('apps/tile/tile.cpp', 'if (!args.force)', 'if (!args.force && tile == keys.front ())')],
  needs='a tile other than the first one that already exists while the first does not',
  breaks='existing files are overwritten without the force option',
  py='''
r = [rec(0, 0, 0), rec(20, 0, 0), rec(0, 20, 0)]
with scratch() as d:
    open(d + '/a.spoc', 'wb').write(pack(r))
    run('tile', '-s', 10, '-p', d + '/t', d + '/a.spoc')
    n = sorted(f for f in os.listdir(d) if f.startswith('t'))
    os.remove(d + '/' + n[0])
    open(d + '/' + n[-1], 'wb').write(b'precious')
    p = run('tile', '-s', 10, '-p', d + '/t', d + '/a.spoc', ok=False)
    sys.exit(0 if p.returncode and open(d + '/' + n[-1], 'rb').read() == b'precious' else 'overwritten')
''')

S(id='c07-shuffled-voxels', property='C07',
  edits=[('spoc/subsampling.h', 'if (s.find (v[j]) != s.end ())', 'if (s.find (v[i]) != s.end ())'),
         ('spoc/subsampling.h', 's.insert (v[j]);', 's.insert (v[i]);')],
  needs='a nonzero random seed and several records in a voxel',
  breaks='with a random order some voxels get several representatives and others none',
  py='''
r = [rec(k // 3 * 10, 0, 0, p=k) for k in range(12)]
for seed in range(1, 20):
    out = unpack(run('filter', '-s', 5, '-a', seed, stdin=pack(r)))[2]
    if sorted(q[0] for q in out) != [0, 10, 20, 30]:
        sys.exit('seed %d: %s' % (seed, out))
''')

S(id='c13-field-order', property='C13',
  edits=[('apps/diff/diff.h', '''                case 'b': {
                              if (get_b (f1.get_point_records ()) != get_b (f2.get_point_records ()))
                                  return_code = -1;
''', '''                case 'b': {
                              return_code = (get_b (f1.get_point_records ()) != get_b (f2.get_point_records ())) ? -1 : 0;
''')],
  needs='several -f options, an unequal field named before an equal b field',
  breaks='the difference found in the earlier field is forgotten',
  py='''
with scratch() as d:
    open(d + '/a.spoc', 'wb').write(pack([rec(c=1, b=7)]))
    open(d + '/b.spoc', 'wb').write(pack([rec(c=2, b=7)]))
    p = run('diff', '-f', 'c', '-f', 'b', d + '/a.spoc', d + '/b.spoc', ok=False)
    sys.exit(0 if p.returncode else 'difference not reported')
''')

S(id='c10-noise-state', property='C10',
  edits=[('apps/transform/transform.h', 'for (const auto &op : ops)', 'for (auto op : ops)')],
  needs='a noise command and more than one record',
  breaks='the random number generator starts over for each record, so that all records get the same noise',
  py='''
r = unpack(run('transform', '--uniform-noise=1', stdin=pack([rec(c=k) for k in range(8)])))[2]
sys.exit(0 if len({q[0] for q in r}) > 4 else 'all records moved alike')
''')

S(id='c09-id-zero', property='C09',
  edits=[('apps/merge/merge.cpp', 'const auto id = args.point_id < 0 ? i : args.point_id;', 'const auto id = args.point_id <= 0 ? i : args.point_id;')],
  needs='an explicit point ID of 0 and a second input',
  breaks='the records of the second file get the ID 1 instead of 0',
  py='''
with scratch() as d:
    for n in 'ab': open(d + '/' + n, 'wb').write(pack([rec(p=9)]))
    out = unpack(run('merge', '-q', '-p', 0, d + '/a', d + '/b'))[2]
    sys.exit(0 if [q[4] for q in out] == [0, 0] else 'ids %s' % out)
''')

S(id='c11-precision', property='C11',
  edits=[('apps/tool/tool.h', 'os << std::setprecision(std::numeric_limits<double>::max_digits10);', 'os << std::setprecision(std::numeric_limits<double>::digits10 + 1);')],
  needs='a coordinate that needs 17 digits',
  breaks='coordinates exported to text and imported again are off by one unit in the last place',
  py='''
x = 0.1 + 0.2
t = run('tool', '-g', 'x', stdin=pack([rec(x), rec(1 / 3)])).split()
sys.exit(0 if [float(s) for s in t] == [x, 1 / 3] else 'values %s' % t)
''')

S(id='c12-upsample-origin', property='C12',
  edits=[('apps/tool/tool.h', 'const auto eh = spoc::extent::get_extent (h.get_point_records ());', 'const auto eh = spoc::extent::get_extent (l.get_point_records ());')],
  needs='a low resolution cloud whose lower corner is not that of the high resolution cloud',
  breaks='classes are taken from the wrong voxels',
  py='''
with scratch() as d:
    hi = [rec(x, 0, 0) for x in (0, 1, 2.5, 3.5)]
    lo = [rec(1, 0, 0, c=5), rec(2.5, 0, 0, c=6)]
    open(d + '/h', 'wb').write(pack(hi))
    open(d + '/l', 'wb').write(pack(lo))
    out = unpack(run('tool', '--upsample-classifications=1', d + '/l', d + '/h', ok=True))[2]
    sys.exit(0 if [q[3] for q in out] == [0, 5, 6, 0] else 'classes %s' % out)
''')

S(id='c14-quartile', property='C14',
  edits=[('apps/info/info.h', 's["q3"] = y[3 * n / 4];', 's["q3"] = y[n / 4 * 3];')],
  needs='JSON output of quartiles for a number of records that is not a multiple of four',
  breaks='the third quartile in the JSON summary is that of another record',
  py='''
t = run('info', '-s', '-q', '-j', '-l', stdin=pack([rec(k) for k in range(7)])).decode()
m = re.search(r"'x' : \\{.*?'q3' : ([0-9.]+)", t, re.S)
sys.exit(0 if m and float(m.group(1)) == 5 else t)
''')

S(id='c17-merge-srs', property='C17',
  edits=[('apps/merge/merge.cpp', '            if (i == 0)\n', '            if (g.get_wkt ().empty ())\n')],
  needs='a first input without SRS and a later one with one',
  breaks='the result has the SRS of a later file although its first file has none',
  py='''
with scratch() as d:
    open(d + '/a', 'wb').write(pack([rec(1)]))
    open(d + '/b', 'wb').write(pack([rec(2)], wkt='SRS'))
    sys.exit(0 if unpack(run('merge', '-q', d + '/a', d + '/b'))[0] == '' else 'SRS taken from the second file')
''')

S(id='c18-stream-tail', property='C18',
  edits=[('spoc/compression.h', '''                throw std::runtime_error (zlib_error_string (Z_ERRNO));
            // GCOV_EXCL_STOP
        } while (deflator.s.avail_out == 0);
    } while (!is.eof ());''', '''                throw std::runtime_error (zlib_error_string (Z_ERRNO));
            // GCOV_EXCL_STOP
        } while (deflator.s.avail_in != 0);
    } while (!is.eof ());''')],
  needs='stream compression of incompressible data a little shorter than the buffer',
  breaks='the end of the compressed stream is missing',
  cpp=r'''
#include "spoc/compression.h"
#include <random>
#include <sstream>
int main ()
{
    for (size_t n = (1 << 20) - 700; n < (1 << 20); n += 10)
    {
        std::mt19937 g (n);
        std::string v (n, 0);
        for (auto &b : v) b = g ();
        std::stringstream a (v), b, c;
        try { spoc::compression::compress (a, b, -1); spoc::compression::decompress (b, c); }
        catch (...) { return 2; }
        if (c.str () != v) return 1;
    }
    return 0;
}
''')

S(id='c19-point-order', property='C19',
  edits=[('spoc/point.h', '''    if (a.y > b.y) return false;
    if (a.z < b.z) return true;''', '''    if (a.z < b.z) return true;''')],
  needs='two points with equal x that are ordered differently in y and z',
  breaks='the order is not antisymmetric: each of the two points is less than the other',
  cpp=r'''
#include "spoc/point.h"
int main ()
{
    spoc::point::point<double> a {0, 1, 0}, b {0, 0, 1};
    return a < b && b < a;
}
''')

S(id='c20-rotate-inplace', property='C20',
  edits=[('spoc/affine.h', 'p[i].z = zop (x, y, z);', 'p[i].z = zop (p[i].x, y, z);')],
  needs='a rotation about the Y axis of a point with nonzero X',
  breaks='the rotated Z is computed from the already rotated X',
  cpp=r'''
#include "spoc/spoc.h"
#include "spoc/affine.h"
int main ()
{
    std::vector<spoc::point::point<double>> p {{1, 2, 3}};
    spoc::affine::rotate_y (p, 90);
    return std::abs (p[0].x + 3) < 1e-9 && std::abs (p[0].z - 1) < 1e-9 ? 0 : 1;
}
''')

S(id='c22-read-all', property='C22',
  edits=[('apps/transform/transform.h', '''    // Process the points
    for (size_t i = 0; i < h.total_points; ++i)
    {
        // Read a point
        auto p = spoc::point_record::read_point_record (is, h.extra_fields);
''', '''    // Read the points in batches
    std::vector<PR> batch;

    // Process the points
    for (size_t i = 0; i < h.total_points; ++i)
    {
        // Read the next batch of points
        if (i % 16 == 0)
        {
            batch.clear ();
            for (size_t k = i; k < h.total_points && k < i + 16; ++k)
                batch.push_back (spoc::point_record::read_point_record (is, h.extra_fields));
        }
        auto p = batch[i % 16];
''')],
  needs='a producer that writes records slowly, one by one, into a pipe',
  breaks='records do not flow through: nothing is written before many more records have been read',
  py='''
import select, time
s = pack([rec(k) for k in range(8)])
p = subprocess.Popen([BIN + 'spoc_transform', '--add-x=1'], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
p.stdin.write(s[:18 + 3 * 40]); p.stdin.flush()
got = b''
t = time.time()
while len(got) < 18 + 3 * 40 and time.time() - t < 10:
    if select.select([p.stdout], [], [], 0.2)[0]:
        b = os.read(p.stdout.fileno(), 4096)
        got += b
        if not b: break
p.stdin.write(s[18 + 3 * 40:]); p.stdin.close(); p.stdout.read(); p.wait()
sys.exit(0 if len(got) == 18 + 3 * 40 else 'only %d bytes came through' % len(got))
''')

S(id='c03-too-long', property='C03',
  edits=[('spoc/compression.h', 'if (d.size () != output_bytes)', 'if (d.size () < output_bytes)')],
  needs='a compressed file with a field that holds more values than the header announces',
  breaks='the malformed file is read as if it were valid',
  py='''
s = bytearray(pack([rec(k) for k in range(5)], compressed=True))
s[9:17] = struct.pack('<Q', 4)
p = run('filter', stdin=bytes(s), ok=False)
sys.exit(0 if p.returncode else 'accepted')
''')

S(id='c04-no-flush', property='C04',
  edits=[('spoc/point_record.h', '''        s.write (reinterpret_cast<const char*>(&p.extra[0]), p.extra.size () * sizeof(uint64_t));
    s.flush ();
''', '''        s.write (reinterpret_cast<const char*>(&p.extra[0]), p.extra.size () * sizeof(uint64_t));
''')],
  needs='a device that fills up at the end of an uncompressed file, behind the header',
  breaks='the write error happens when the stream is closed and the command reports success',
  sh='''#!/bin/bash
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
python3 - "$d" <<'E'
import struct, sys
v = bytes([0, 1])
open(sys.argv[1] + '/a.spoc', 'wb').write(b'SPOC' + v + struct.pack('<HBQB', 0, 0, 40, 0) + b''.join(struct.pack('<dddIIHHHH', k, 1, 1, 0, 0, 0, 0, 0, 0) for k in range(40)))
E
# 1618 bytes do not fit into 1 KB
( ulimit -f 1; trap '' XFSZ; /repo/_build/release/spoc_filter "$d/a.spoc" "$d/b.spoc" ) && { echo "incomplete file reported as success"; exit 1; }
exit 0
''')

S(id='c05-swap-flag', property='C05',
  edits=[('spoc/file.h', '        std::swap (compressed, f.compressed);\n', '')],
  needs='assignment or swap between a compressed and an uncompressed cloud',
  breaks='the compression flag is not assigned',
  cpp=r'''
#include "spoc/spoc.h"
int main ()
{
    spoc::file::spoc_file a ("A", true), b;
    b = a;
    return b.get_compressed () ? 0 : 1;
}
''')

S(id='c06-keep-and-remove', property='C06',
  edits=[('apps/filter/filter.cpp', '        if (!args.remove_classes.empty ())', '        else if (!args.remove_classes.empty ())')],
  needs='both a keep-class and a remove-class option for the same class',
  breaks='removal is ignored when classes to keep are given',
  py='''
out = unpack(run('filter', '-k', 1, '-k', 2, '-r', 2, stdin=pack([rec(c=1), rec(c=2), rec(c=3)])))[2]
sys.exit(0 if [q[3] for q in out] == [1] else 'kept %s' % out)
''')

S(id='c16-shared-neighbors', property='C16',
  edits=[('spoc/radius_search.h', '''    // For each search starting point
#pragma omp parallel for
    for (size_t i = 0; i < point_voxel_indexes.size(); ++i)
    {
        // The neighbor indexes
        std::vector<size_t> neighbors;

''', '''    // The neighbor indexes
    std::vector<size_t> neighbors;

    // For each search starting point
#pragma omp parallel for
    for (size_t i = 0; i < point_voxel_indexes.size(); ++i)
    {
''')],
  needs='two threads that search for neighbors at the same time',
  breaks='the list of neighbors is shared by the threads',
  env='OMP_NUM_THREADS=2',
  cpp=r'''
#include "spoc/spoc.h"
#include <atomic>
#include <chrono>
#include <thread>
// Two calls of the operation that run at the same time must have different neighbors
int main ()
{
    std::vector<spoc::point_record::point_record> p;
    p.push_back ({0, 0, 0}); p.push_back ({50, 0, 0}); p.push_back ({51, 0, 0});
    for (int k = 0; k < 20; ++k)
    {
        std::atomic<int> inside (0);
        std::atomic<const void *> seen[2] = {nullptr, nullptr};
        std::vector<size_t> idx {0, 1}, all {0, 1, 2};
        spoc::radius_search::radius_search (p, idx, all, 2.0, [&] (size_t i, const std::vector<size_t> &v)
        {
            seen[i] = &v;
            ++inside;
            const auto t = std::chrono::steady_clock::now ();
            while (inside < 2 && std::chrono::steady_clock::now () - t < std::chrono::seconds (2)) std::this_thread::yield ();
        }, 100);
        if (inside == 2 && seen[0] == seen[1]) return 1;
    }
    return 0;
}
''')
