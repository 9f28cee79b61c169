"""The table of checks: harness, commands it runs, and what its evidence means."""

IN_MEMORY = 'each execution runs the real library code in memory; a state is the content of a distinct cloud, a transition one library call'
CLI = 'each execution runs the real commands (in-process, violations confirmed in separate processes); a state is a distinct cloud or file set observed, a transition one command run'

COMMON = [
    'little-endian x86-64, as the file format code itself assumes',
    'zlib is correct; it is also used by the reference model to build and to decode compressed fields',
    'every violation found is replayed twice in fresh processes before it is reported',
]

ALL_APPS = 'compress decompress diff filter info merge srs tile tool transform'.split()

CHECKS = {}


def build_omp(chk, variants, scratch, env, REPO, HERE, compile_):
    """Code under test with instrumented memory accesses, on the controlled OpenMP runtime"""
    import concurrent.futures
    import os
    wraps = 'memcpy memmove memset memcmp deflate inflate pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort'
    ld = ' '.join('-Wl,--wrap=' + w for w in wraps.split()) + ' -pthread -lz -ldl'
    opt = {'o0': '-O0 -g1', 'o2': '-O2 -g1 -DNDEBUG'}
    jobs = []
    for v in variants:
        d = f'{scratch}/{v}'
        os.makedirs(d + '/apps')
        inst = f'g++ -std=c++20 {opt[v]} -w -fopenmp -fsanitize=thread -D_GLIBCXX_EXTERN_TEMPLATE=0 -I{REPO} -I{HERE}/harness'
        plain = f'g++ -std=c++20 -O2 -g1 -w -I{HERE}/harness'
        jobs.append(f'{inst} -c {HERE}/harness/{chk["harness"]}.cpp -o {d}/h.o && {plain} -c {HERE}/harness/omp_rt.cpp -o {d}/rt.o && g++ -rdynamic {d}/h.o {d}/rt.o -o {d}/mc {ld}')
        for app in chk['apps']:
            w = f'{d}/apps/{app}.cpp'
            with open(w, 'w') as f:
                f.write('int main (int, char **) __attribute__ ((visibility ("default")));\n'
                        f'#include "{REPO}/apps/{app}/{app}.cpp"\n')
            jobs.append(f'{inst} -fPIC -fvisibility=hidden -c {w} -o {d}/apps/{app}.o && g++ -shared {d}/apps/{app}.o -o {d}/apps/{app}.so {ld}')
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for f in [ex.submit(compile_, j, env) for j in jobs]:
            f.result()



def build_python(chk, variants, scratch, env, REPO, HERE, compile_):
    """The extension module under test, and the explorer with an interpreter in it"""
    import concurrent.futures
    import os
    import shutil
    import subprocess
    py = '/usr/bin/python3' if os.path.exists('/usr/bin/python3') else 'python3'
    inc = subprocess.run([py, '-m', 'pybind11', '--includes'], stdout=subprocess.PIPE).stdout.decode().strip()
    ld = subprocess.run([py + '-config', '--embed', '--ldflags'], stdout=subprocess.PIPE).stdout.decode().strip()
    flags = {'asan': '-O1 -g1 -fsanitize=address -fno-omit-frame-pointer', 'rel': '-O2 -DNDEBUG'}
    jobs = []
    for v in variants:
        d = f'{scratch}/{v}'
        # memory requests that only a damaged file makes fail, in both
        flags[v] += f' -DMC_LIMIT_ALLOC=67108864 -include {HERE}/harness/alloc.h'
        os.makedirs(d + '/apps/spocpy')
        for fn in os.listdir(f'{REPO}/spocpy/spocpy'):
            if fn.endswith('.py'):
                shutil.copy(f'{REPO}/spocpy/spocpy/{fn}', d + '/apps/spocpy/' + fn)
        jobs.append(f'g++ -std=c++17 {flags[v]} -w -fopenmp -fvisibility=hidden -fPIC -shared -DVERSION_INFO=0 {inc} -I{REPO} {REPO}/spocpy/spocpy/spocpy.cpp -o {d}/apps/spocpy/spocpy_cpp.so -lz')
        jobs.append(f'g++ -std=c++20 {flags[v]} -w -fopenmp -fvisibility=hidden {inc} -I{REPO} -I{HERE}/harness {HERE}/harness/{chk["harness"]}.cpp -o {d}/mc -lz {ld}')
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for f in [ex.submit(compile_, j, env) for j in jobs]:
            f.result()


def check(id, **kw):
    kw.setdefault('assumptions', COMMON)
    CHECKS[id] = kw


check('C01', harness='c01',
      technique='exhaustive bounded state exploration of the real reader/writer against a byte-level reference model',
      rule='all clouds within the bounds of each scenario: cell-wise deviations from base patterns, all shapes, all WKT lengths listed, all single-bit records, all sequences of clouds. ' + IN_MEMORY,
      note='Every cloud within the bounds is written by three writers and read by three readers of the real code and compared bit for bit with an independent byte-level model. Bounds: see DESIGN.md.')
check('C02', harness='c02', apps=['compress', 'decompress'],
      technique='exhaustive bounded state exploration of the real compressor, decompressor and commands against a byte-level reference model',
      rule='all clouds within the bounds of each scenario, written, read, and passed through the two commands in both orders. ' + IN_MEMORY,
      note='All clouds within the bounds are written compressed, decoded independently, read back, and run through spoc_compress and spoc_decompress; wrong formats must be refused.')
check('C03', harness='c03', apps=ALL_APPS,
      technique='exhaustive enumeration of damage (every cut position, every header byte value, every bit of compressed data) on the real readers and commands',
      rule='every damage pattern within the bounds, applied to every listed base file, given to every reader and every command; the verdict comes from an independent parser. ' + IN_MEMORY,
      note='Every cut position, every identifier/version byte, every size byte value listed, and every bit flip of small compressed files is given to all readers and commands; an independent parser decides what is acceptable. Sizes asking for more than 16M records are only checked for being rejected under a memory limit.')
check('C04', harness='c04', apps=ALL_APPS,
      technique='exhaustive write-fault injection: every byte position of every output of the real writers and commands',
      rule='for every writer, command form, and listed input, the sink fails behind byte k for every k (large outputs in the quick tier: the first and last bytes and those around buffer sizes), at the write and at the flush. A state is a distinct (output, fault position).',
      note='Every fault position of every output: failing stream buffers (failure at write or at flush) in-process, file size limits for files and /dev/full with real descriptors. Failures of close() itself are not injected.')
check('C05', harness='c05',
      technique='exhaustive exploration of operation sequences of the real container against a list model',
      rule='every sequence of operations up to the depth, on two containers, from four initial pairs; after every operation every accessor of both containers is compared with the model. ' + IN_MEMORY,
      note='All operation sequences up to depth 3 (quick) or 4 (thorough) of 42 operations on two containers, plus construction and extra-field-count grids; out-of-range record indexes are preconditions and not explored.')
check('C18', harness='c18',
      technique='exhaustive bounded enumeration of inputs, lengths, levels, interfaces and damage of the real compression layer, against zlib as the reference decoder',
      rule='all byte strings over a four-letter alphabet up to the stated length, all lengths in the stated ranges around internal buffer sizes, all levels, all interface pairs, all cuts and bit flips of the listed streams. ' + IN_MEMORY,
      note='Every string, length and damage within the bounds goes through every interface of the real code; zlib called directly decides what is a valid stream. A damaged stream that zlib itself cannot tell from a valid one must give the bytes zlib gives.')
check('C19', harness='c19',
      technique='exhaustive bounded enumeration of values, pairs, triples and small clouds for the real primitives, against directly stated laws',
      rule='all pairs and triples of values over boundary alphabets, all records that differ in at most two cells or one bit, all small lattice clouds, all boxes. ' + IN_MEMORY,
      note='Laws are checked on every combination within the bounds; NaN coordinates only for encoding (they are unordered); voxel laws for coordinates and resolutions whose quotients are exact.')
check('C06', harness='c06', apps=['filter'],
      technique='exhaustive bounded enumeration of clouds and option combinations of the real spoc_filter against a list-based reference model',
      rule='all sequences of classes and coordinates within the bounds with all option sets, styles, and orders. ' + CLI,
      note='Every cloud and option combination within the bounds is run through the real command and compared with the model record by record. Class options above 2147483647 and an empty coordinate expression are not specified by the documentation and not explored.')
check('C07', harness='c07', apps=['filter'],
      technique='exhaustive bounded enumeration of clouds, resolutions and seeds of the real spoc_filter and library functions against a reference model',
      rule='all sequences of lattice points within the bounds, all listed resolutions and seeds. ' + CLI,
      note='Coordinates and resolutions are chosen so that voxel quotients are exact; NaN coordinates (no location) are not explored. For nonzero seeds any representative is accepted, but the result must be repeatable.')
check('C08', harness='c08', apps=['tile'],
      technique='exhaustive bounded enumeration of clouds, tile options and pre-existing file sets of the real spoc_tile against a reference model of the whole directory',
      rule='all placements of points within the bounds with all tile options, all name forms, all subsets of pre-existing tiles. ' + CLI,
      note='After every run the complete content of the working directory is compared with the model. For --tiles the points between the corners are kept off the tile boundaries, whose place is subject to rounding; tile sizes and coordinates are otherwise exact. Races with other processes creating files are not explored.')
check('C09', harness='c09', apps=['merge'],
      technique='exhaustive bounded enumeration of input file lists of the real spoc_merge against a list-based reference model',
      rule='all numbers of inputs and records, metadata combinations, ids, and unreadable inputs within the bounds. ' + CLI,
      note='Every list of inputs within the bounds is merged by the real command and compared with the model record by record, with warnings and error cases.')
check('C13', harness='c13', apps=['diff'],
      technique='exhaustive bounded enumeration of pairs of files and options of the real spoc_diff against a field-by-field reference verdict',
      rule='all pairs of files within the bounds (every differing value, bit, record, field, header part), all modes, both file orders. ' + CLI,
      note='The verdict of the real command is compared with the model for every pair within the bounds, in both orders. Not explored, because unspecified: NaN coordinates, 0.0 against -0.0, extra fields that only one of the files has.')
check('C10', harness='c10', apps=['transform'],
      technique='exhaustive bounded enumeration of command sequences, values and clouds of the real spoc_transform against a formula-based reference model',
      rule='all commands, values, cell deviations, and all sequences of two or three commands within the bounds. ' + CLI,
      note='Formulas are compared exactly (rotations up to rounding); command sequences must equal both the composed formulas and the pipeline of single commands bit for bit. Noise is checked for its effects (named coordinates only, repeatable, seed-dependent, magnitude and spread), not for particular values. Not explored, because unspecified: values that do not fit the field, surplus values, non-finite command values.')
check('C11', harness='c11', apps=['tool'],
      technique='exhaustive bounded enumeration of field values, fields, shapes and value texts of the real spoc_tool against a list-based reference model',
      rule='all fields with every boundary value and every bit, powers of two and ten with their neighbours, all value texts within the bounds. ' + CLI,
      note='Every field of every cloud within the bounds is exported and imported again by the real command. Not-a-number and infinite coordinates are exported but cannot be read back (refused with an error). Text after the last needed value, and values that do not fit the field, are not specified and not explored.')
check('C12', harness='c12', apps=['tool', 'filter'],
      technique='exhaustive bounded enumeration of clouds, sizes and cloud pairs of the real spoc_tool against a formula-based reference model',
      rule='all placements of points within the bounds, all numbers of extra fields, all pairs of small high and low resolution clouds. ' + CLI,
      note='The mean is compared up to rounding, everything else exactly. For upsampling, coordinates and resolutions are chosen so that voxel quotients are exact, and with several low resolution records in one voxel any of their classes is accepted.')
check('C14', harness='c14', apps=['info'],
      technique='exhaustive bounded enumeration of clouds and option combinations of the real spoc_info against independently computed facts',
      rule='all cell deviations, all value sequences, all classes, all option subsets and output forms within the bounds. ' + CLI,
      note='The output of the real command in all forms is parsed and every reported number compared with independently computed facts: integers exactly, coordinates up to the printed decimals. Not explored: non-finite coordinates, densities of clouds wider than 1e6 units, WKT with quotes in JSON (printed unescaped).')
check('C15', harness='c15',
      technique='exhaustive bounded enumeration of lattice point sets, radii, index lists and neighbor limits of the real radius search against the definition',
      rule='all placements of points on lattices, all index lists with repetitions, all listed radii and limits. ' + IN_MEMORY,
      note='Every point set within the bounds is searched with every variant of the real search and compared with the definition. Coordinates and radii are small multiples of powers of two, so that distances and cell numbers are exact; points whose distance equals the radius only up to rounding are not explored.')
check('C20', harness='c20', apps=['transform'],
      technique='exhaustive bounded enumeration of operation sequences, values and clouds of the real in-memory operations against formulas and against the real spoc_transform',
      rule='all operations, values, cell deviations, cloud sizes, and all sequences of operations within the bounds. ' + CLI,
      note='Every operation is run on records and on plain points and compared with the formulas (rotations up to rounding) and with the real command. Idempotence of quantization is checked for powers of two, where the arithmetic is exact; quantization behind a rotation is decided by rounding and not explored.')
check('C17', harness='c17', apps=['compress', 'decompress', 'filter', 'tool', 'transform', 'srs', 'info', 'merge', 'diff', 'tile'],
      technique='exhaustive bounded enumeration of commands, input and output paths, cloud shapes, SRS texts and chains of commands on the real commands against a reference model and against each other',
      rule='all command forms with all shapes, all paths, verbose positions, states of the output file, and damaged inputs; all SRS texts within the bounds; all chains of two (three) commands. ' + CLI,
      note='Every command form is run through standard input and output and through files and must give the same bytes and status; what it is not documented to change must be unchanged. With one file as input and output, the result is that of two files, or an error with the file unchanged.')
check('C21', harness='c21', apps=ALL_APPS,
      technique='exhaustive bounded enumeration of argument vectors of the real commands against the documented options',
      rule='all documented options in all spellings and places, all undocumented letters and option names of the other commands, all numbers of files, all argument vectors over the options up to length three (four). ' + CLI,
      note='Documented options are those of the manual pages. Abbreviated long options, bundled short options, "--", and the values of option arguments are not explored here (values are covered by the properties of each command).')
check('C22', harness='c22', apps=['compress', 'decompress', 'filter', 'info', 'srs', 'tile', 'tool', 'transform'],
      technique='exhaustive exploration of input delivery schedules (all one- and two-cut splits, all piece sizes, all record prefixes) on the real readers and commands, in process and through real pipes',
      rule='every split of the input within the bounds, for every reader and command; every order of input delivery and output at record boundaries. A state is a distinct result at a distinct delivery schedule; a transition is one reader call or command run.',
      note='A controlled source delivers the input in every split within the bounds, and an observer checks at every read which part of the output can be read. Real processes on pipes and named pipes are given the next part when they have taken the previous one. Pipelines of more than two commands follow from the single ones.')
check('C16', harness='c16', apps=ALL_APPS, variants=['o0', 'o2'], build=build_omp,
      technique='stateless exploration of all thread schedules (bounded preemptions) of the real parallel regions under a controlled OpenMP runtime, with vector-clock race detection on every memory access',
      rule='for every operation and cloud within the bounds and every number of threads, all schedules: all orders of the threads of each region, all assignments of sections, and all preemptions up to the bound at claims, locks, atomics and user operations. A state is a distinct schedule, a transition one scheduling decision.',
      note='The real code is compiled with -fsanitize=thread instrumentation and linked to a runtime of our own instead of libgomp and libtsan: one thread runs at a time, the explorer decides which. Accesses inside of parallel regions are checked for races by vector clocks, so that schedules that only reorder independent accesses are covered by one. Memory inside of zlib and the C library is not observed, except at its interface.')
check('C23', harness='c23', build=build_python,
      technique='exhaustive bounded exploration of clouds, damage and sequences of binding calls on the real Python extension in an embedded interpreter, against the C++ library and a reference model',
      rule='all clouds, damage and call sequences within the bounds, through the compiled extension module in a real interpreter. A state is a distinct cloud seen from Python, a transition one call of the module.',
      note='Every getter, setter, reader and writer of the binding is called on every cloud within the bounds; files written from Python are compared byte for byte with those of the C++ library. Metadata that is not UTF-8 (which Python strings cannot hold) and record indexes out of range (unchecked in C++, too) are not explored.')
check('C24', harness='c24',
      technique='exhaustive bounded enumeration of JSON values, records and headers, printed by the real code and read by an independent reader',
      rule='all scalars of every type over boundary alphabets alone and in pairs, all trees of arrays and objects up to the depth and width, all chains, all cells of records, all numbers of extra fields. ' + IN_MEMORY,
      note='Both JSON forms of every value within the bounds are read back by an independent reader and compared with the value and with each other. Strings with a quote (printed unescaped), non-finite numbers and values of other types are not explored.')
check('C25', harness='c25',
      technique='exhaustive bounded enumeration of extents and points for the real rescaling functions, against directly stated laws',
      rule='all extents of the list with all places of the grid on every axis, all lattice points of dyadic boxes, all small clouds. ' + IN_MEMORY,
      note='Scaled values are compared exactly where the arithmetic is exact and up to rounding elsewhere; points outside of the extent, and extents whose scaled size is not a finite number, are not explored.')
