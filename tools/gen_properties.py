#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Uncompressed files: documented byte layout and lossless round trip",
 "Writing any valid point cloud uncompressed produces exactly the documented byte layout (identifier, version, WKT length and bytes, extra-field count, point count, compression flag, then the 40-byte records with their extra fields, in order), and reading any byte string in that layout yields exactly that header and those records, bit for bit. This holds for every number of points, every number of extra fields from 0 to 255, every WKT length from 0 to 65535 with any byte content, and every field value including non-finite, subnormal and negative-zero coordinates. Whole-file and record-at-a-time reading and writing agree with each other.",
 ["inputs", "configurations"], "all point counts, extra-field counts, WKT lengths/contents and field values",
 "The tests round-trip a handful of random clouds with 0-10 extra fields; they never compare the bytes with the documented layout, and reach neither chunk boundaries of the reader for each record size nor the limits of each field's domain.",
 ["spoc/io.h", "spoc/header.h", "spoc/point_record.h", "spoc/file.h", "README.md"],
 [("read_uncompressed_points / write_spoc_file_uncompressed", "spoc/io.h"), ("read_header / write_header", "spoc/header.h"), ("read_point_record / write_point_record", "spoc/point_record.h")],
 ["bytes written to a stream", "records read from a stream"],
 [("read buffer", "chunk of records copied from the stream", "spoc/io.h read_uncompressed_points")])
prop("C02", "Compression is lossless; compress and decompress are inverses",
 "Writing any valid point cloud compressed and reading it back yields the same header and bit-for-bit the same records, for every point count, extra-field count, WKT and field value. spoc_compress followed by spoc_decompress reproduces the original file byte for byte, spoc_decompress followed by spoc_compress preserves all content, and each of the two tools (and each format-specific reader or writer) refuses a file that is in the wrong format for it. A compressed file has, after the header, one length-prefixed zlib stream per field in field order, with length zero standing for a field whose bytes are all zero.",
 ["inputs", "configurations"], "all point clouds, including fields that are all zero, constant, or larger than the compression buffer",
 "The tests round-trip a few random clouds; the all-zero shortcut, the buffer-boundary sizes, per-field independence and bit-level values such as -0.0 need every combination, not a sample.",
 ["spoc/io.h", "spoc/compression.h", "apps/compress/compress.cpp", "apps/decompress/decompress.cpp"],
 [("compress_field / write_compressed / read_compressed", "spoc/io.h"), ("compression::compress / decompress", "spoc/compression.h")],
 ["bytes of compressed files", "records read back", "exit status of spoc_compress/spoc_decompress"])
prop("C03", "Malformed or truncated input is rejected, never misread",
 "Reading a file that is empty, cut short at any byte, has a wrong identifier, an incompatible version, a corrupted compressed field, or sizes that contradict its contents raises an error: no reader returns invented or stale records for it, crashes, reads outside its buffers, or fails to terminate. Every command given such an input exits with a non-zero status and an error message. Bytes after the last record do not affect what is read.",
 ["inputs", "crash_points", "fault_sequences"], "every truncation point and every single-byte corruption of structural fields, for files of every kind",
 "The tests only check a wrong signature and version; no test truncates a file, and the number of cut points times file kinds is exactly what enumeration covers.",
 ["spoc/header.h", "spoc/io.h", "spoc/point_record.h", "spoc/compression.h", "apps"],
 [("stream state and inflate status checks", "spoc/header.h, spoc/io.h, spoc/point_record.h, spoc/compression.h"), ("exception handler in main", "apps/*/*.cpp")],
 ["exceptions from readers", "exit status and stderr of the commands"])
prop("C04", "A failed write is always reported",
 "If any byte of an output cannot be written (device full, file size limit, closed pipe), the library function writing it raises an error and the command exits with a non-zero status, whatever byte the failure happens at. A command never reports success unless its complete output was written. This holds for SPOC output, text output and every tile.",
 ["fault_sequences", "crash_points"], "every position at which the output device can start refusing bytes, for every command and writer",
 "No test injects a write failure; there are as many failure points as output bytes.",
 ["spoc/io.h", "spoc/header.h", "spoc/point_record.h", "spoc/app_utils.h", "apps"],
 [("stream state checks after flush", "spoc/header.h, spoc/point_record.h, spoc/io.h"), ("exception handler in main", "apps/*/*.cpp")],
 ["exceptions from writers", "exit status of the commands"])
prop("C05", "The point cloud container keeps its invariants under any operation sequence",
 "After any sequence of container operations (add, replace, set, move in or out, resize extra fields, copy, assign, swap, set metadata) the container holds exactly the records, order and metadata that a plain list would, all records have the same number of extra fields, and the header it reports matches its contents. An operation that is refused (mismatched extra fields, oversized WKT or extra-field count in the header) raises an error and leaves the container unchanged. Copies are independent: changing one never affects another.",
 ["histories", "inputs"], "all operation sequences up to a depth, over containers that share records",
 "Unit tests call each method once in a fixed order; invariant violations need particular sequences (e.g. refuse, then move out, then add with another extra count).",
 ["spoc/file.h", "spoc/point_record.h", "spoc/header.h"],
 [("all_same_size_extra checks, copy-and-swap", "spoc/file.h")],
 ["accessors of the container", "exceptions"],
 [("prs", "the records", "spoc/file.h spoc_file")])
prop("C06", "Class and coordinate filters keep exactly the selected records, in order",
 "spoc_filter keeping (removing) a set of classes outputs exactly the records whose class is (is not) in the set, and removing by coordinate outputs exactly the records for which the stated comparison is false; every kept record is unchanged, record order is preserved, and keep and remove of the same set partition the input. Filters given together apply as their composition, and filtering twice with the same options changes nothing more. A malformed coordinate expression is an error.",
 ["inputs", "configurations"], "all clouds, class sets, coordinate expressions and option combinations",
 "Tests filter one random cloud per option; thresholds equal to a coordinate, classes at the ends of the 32-bit range, empty results and option combinations are not reached.",
 ["apps/filter/filter.h", "apps/filter/filter.cpp", "apps/filter/filter_cmd.h"],
 [("keep_classes / remove_classes / remove_coords", "apps/filter/filter.h")],
 ["output records of spoc_filter"])
prop("C07", "Duplicate removal and voxel subsampling keep one representative each",
 "Removing duplicate locations outputs exactly one record for each distinct X, Y, Z location of the input, and subsampling at a resolution outputs exactly one record for each occupied voxel of that size (measured from the cloud's minimum corner); every output record is an unmodified input record. With seed 0 the representative is the first in input order and the order is preserved; with any other seed the result depends only on the input and the seed. Duplicate removal is idempotent for seed 0.",
 ["inputs", "configurations"], "all clouds (ties, duplicates, boundary coordinates), resolutions and seeds",
 "Tests use random clouds where collisions are rare; the property is about which records collide, which exhaustive small lattices decide.",
 ["spoc/subsampling.h", "spoc/voxel.h", "apps/filter/filter.h"],
 [("get_subsample_indexes / get_unique_xyz_indexes", "spoc/subsampling.h"), ("get_voxel_index", "spoc/voxel.h")],
 ["output records of spoc_filter", "returned indexes"])
prop("C08", "Tiling partitions the cloud and never overwrites files unasked",
 "spoc_tile writes every input record to exactly one tile file, unmodified and in input order within its tile, two records share a tile exactly when they fall in the same cell of the grid that starts at the cloud's minimum corner with the requested tile sizes (or number of tiles along the longest side), and each tile carries the input's WKT and compression flag. Files are named prefix (or input base name), zero-padded row-major tile number, and the input's extension (.spoc or .zpoc for standard input); no other file is touched. Without the force option an already existing file is never modified and the command fails.",
 ["inputs", "configurations", "histories"], "all clouds on a lattice, tile options, prefixes and pre-existing file sets",
 "Tests tile one cloud with a few settings; boundary points, independent x/y sizes, degenerate extents and existing files in each position are not enumerated.",
 ["apps/tile/tile.h", "apps/tile/tile.cpp", "apps/tile/tile_cmd.h"],
 [("get_tile_indexes / get_tile_map", "apps/tile/tile.h"), ("existence check before open", "apps/tile/tile.cpp")],
 ["tile files", "exit status"])
prop("C09", "Merging concatenates all inputs in order with the right point ids",
 "spoc_merge outputs the records of all inputs in command-line order, unchanged except that each record's point id is the 0-based index of its input file, or the requested id when one is given. The output carries the first file's WKT and is compressed exactly when all inputs are; a WKT mismatch produces a warning unless quiet. Inputs with different numbers of extra fields, unreadable inputs, or fewer than two inputs are errors and produce no merged cloud.",
 ["inputs", "configurations"], "all tuples of inputs (empty, compressed, differing WKT or extra fields) and options",
 "Tests merge one pair; combinations of compression flags, extra-field counts and empty files in each position are not covered.",
 ["apps/merge/merge.h", "apps/merge/merge.cpp", "apps/merge/merge_cmd.h"],
 [("append", "apps/merge/merge.h")], ["merged file on stdout", "stderr warnings", "exit status"])
prop("C10", "Transform changes only the requested fields, record by record, in command order",
 "spoc_transform outputs the same header and the same number of records in the same order, where each record is the input record after the given commands applied left to right; every command changes only its own fields, by its documented formula (add, scale, rotate, quantize, set, replace, replace-not, copy-field, noise). One invocation with several commands equals a pipeline of single-command invocations. Noise depends only on the input and the random seed, uniform noise stays within its magnitude, and invalid fields, values or commands are errors.",
 ["inputs", "configurations", "histories"], "all command sequences up to a length over all fields and boundary values",
 "Tests apply each command once to a random cloud and check a field or two; field/command pairs (e.g. replace-not on each field) and sequences are not enumerated.",
 ["apps/transform/transform.h", "apps/transform/transform.cpp", "apps/transform/transform_cmd.h", "spoc/app_utils.h"],
 [("get_*_op and apply", "apps/transform/transform.h"), ("consume_* parsers", "spoc/app_utils.h")],
 ["output records of spoc_transform", "exit status"])
prop("C11", "Field text export and import are exact inverses and touch only that field",
 "spoc_tool get-field prints one value per record in order, and set-field with that text reproduces the cloud bit for bit for every field, including extra fields (coordinates that are not finite numbers excepted: reading them back is an error). set-field changes only the named field of each record (adding zero-filled extra fields when the named one does not exist yet) and fails, without producing a cloud, when the text has too few or unparsable values or the field does not exist and cannot be added. get-field of a field that the cloud does not have is an error.",
 ["inputs", "configurations"], "all fields, values over each field's whole domain, and text shapes",
 "Tests export and import a few random values at limited precision; values needing all digits, 64-bit extremes and malformed text are not reached.",
 ["apps/tool/tool.h", "apps/tool/tool.cpp", "spoc/app_utils.h"],
 [("get_field / set_field", "apps/tool/tool.h"), ("check_field_name / get_extra_index", "spoc/app_utils.h")],
 ["text on stdout", "output file", "exit status"])
prop("C12", "Recenter, subtract-min, resize-extra and upsample change only what they name",
 "Recentering subtracts the mean and subtract-min the minimum from X and Y (and from Z only in the xyz variants), leaving every other field, the record order and metadata unchanged, so that afterwards the mean, respectively the minimum, of those coordinates is zero. Resizing extra fields to N (0 to 255) keeps the first N values of each record and zero-fills new ones; other sizes are errors. Upsampling at the resolution used for subsampling gives every record of the high-resolution cloud the class of the low-resolution record in its voxel and changes nothing else.",
 ["inputs", "configurations"], "all clouds on a lattice, all extra-field counts, all subsample/upsample resolutions",
 "Tests check one cloud per command and mostly only one field of the result.",
 ["apps/tool/tool.h", "apps/tool/tool.cpp", "spoc/voxel.h", "spoc/extent.h"],
 [("recenter / subtract_min / resize_extra / upsample_classifications", "apps/tool/tool.h")],
 ["output records of spoc_tool"])
prop("C13", "Diff succeeds exactly when the compared parts are equal",
 "spoc_diff exits with success exactly when the two files have equal headers and equal records (default), equal headers (header-only), equal records in number, order and every field (data-only), or equal values of every listed field (field option; any field both files have), and reverse inverts that result. The verdict is symmetric in the two files and a difference in a single bit of any one integer field of any one record is detected. Unknown field names, conflicting comparison modes and unreadable files are errors.",
 ["inputs", "configurations"], "all pairs of clouds differing in at most two places, all option combinations",
 "Tests compare a file with itself and with one altered copy; each field, each position and each option combination is needed to settle exactness.",
 ["apps/diff/diff.h", "apps/diff/diff.cpp", "apps/diff/diff_cmd.h", "spoc/header.h"],
 [("diff", "apps/diff/diff.h"), ("header operator==/!=", "spoc/header.h")], ["exit status"])
prop("C14", "Reported information is accurate in every output form",
 "spoc_info reports the file's version, WKT, point count and compression flag; for every field, including each extra field, its range, minimum and maximum (or its five quartile boundaries taken from the sorted values at positions 0, n/4, n/2, 3n/4 and last); the exact number of records of every class present with its ASPRS name; and the point densities over the extent area, occupied unit grid cells and occupied unit voxels. The text and JSON, compact and non-compact forms report the same facts, and each option toggles only its own section.",
 ["inputs", "configurations"], "all clouds over boundary values, all 128 option combinations",
 "Tests only check that printing does not fail or match one golden file; the numbers are never recomputed for a variety of clouds and forms.",
 ["apps/info/info.h", "apps/info/info.cpp", "spoc/json.h", "spoc/asprs.h"],
 [("process / get_summary_* / get_class_count_map / get_metric_values", "apps/info/info.h"), ("printers", "spoc/json.h")],
 ["stdout of spoc_info"])
prop("C15", "Radius search returns exactly the points within the radius",
 "For every query point, the search reports each allowed neighbor index whose Euclidean distance is at most the radius exactly once and no other index, provided the neighbor limit is at least that many; with a smaller limit it reports exactly that many distinct valid neighbors. The operation is called exactly once per query index, and the variants over all points, index subsets and all-neighbors agree with the definition. Results depend only on the inputs.",
 ["inputs", "configurations"], "all small point sets on a lattice (duplicates, exact-distance ties, far-apart clusters), radii, index subsets and limits",
 "Tests check a few random clouds against brute force; ties at exactly the radius, duplicate points, voxel-boundary points and limits near the neighbor count are rare in random data.",
 ["spoc/radius_search.h", "spoc/voxel.h"],
 [("random_neighbor_selector / get_neighbors / radius_search", "spoc/radius_search.h")], ["neighbor lists passed to the operation"])
prop("C16", "Results do not depend on thread count or schedule, and there are no data races",
 "Every operation that runs in parallel (compressed reading and writing, voxel indexing, radius search, affine transforms, quantization) produces, for every number of threads and every interleaving of them, exactly the result of running it on one thread. No two threads access the same memory without synchronisation when at least one writes. User operations of a radius search are called exactly once per index under every schedule. Callers may work on different objects on different threads at the same time.",
 ["schedules", "configurations"], "all thread counts up to a bound and all interleavings of the parallel regions' conflicting steps",
 "The tests run whatever schedule the machine happens to produce, on results that are mostly insensitive to it.",
 ["spoc/io.h", "spoc/voxel.h", "spoc/radius_search.h", "spoc/affine.h", "spoc/utils.h"],
 [("omp parallel for / sections over disjoint elements", "spoc/io.h, spoc/voxel.h, spoc/radius_search.h, spoc/affine.h, spoc/utils.h")],
 ["results of the library calls", "memory accesses of the parallel regions"])
prop("C17", "Commands preserve metadata and behave the same for files and pipes",
 "Every command that outputs a point cloud preserves the WKT, the compression flag, the extra-field count of non-empty clouds and all record fields that it is not documented to change, and setting the SRS changes the WKT only; getting it prints exactly the stored WKT of each named file in order. Reading from a named file or from standard input, and writing to a named file or to standard output, give identical bytes and status, and commands chained through pipes equal the same commands through files. Input files are never modified, and verbose output never mixes into standard output.",
 ["configurations", "inputs", "histories"], "all commands, all input/output path combinations, verbose flag, compression flag and cloud shapes, and chains of commands",
 "Tests run each command through one path with one kind of cloud.",
 ["apps", "spoc/app_utils.h", "spoc/file.h"],
 [("input_stream / output_stream", "spoc/app_utils.h"), ("clone_empty", "spoc/file.h"), ("SRS get/set", "apps/srs/srs.cpp")],
 ["output files", "stdout", "exit status"])
prop("C18", "The compression layer is lossless and rejects damaged streams",
 "Compressing any byte string at any level from -1 to 9 and decompressing it, through the buffer or the stream interface in any combination, returns exactly the original bytes, for every length including zero and lengths around the internal buffer size. The compressed form is a standard zlib stream that is decided by the data and the level alone; level 0 stores, and the other levels compress. A truncated or corrupted stream, or one of an unexpected size, is an error, never wrong data; an input stream that cannot be read to its end is an error as well.",
 ["inputs", "configurations"], "all lengths around buffer boundaries, levels, interface combinations and truncation points",
 "Tests round-trip a few sizes of compressible data; exact multiples of the buffer and incompressible data that makes output cross buffer boundaries are not enumerated.",
 ["spoc/compression.h"],
 [("compress / decompress loops", "spoc/compression.h")], ["returned bytes", "exceptions"])
prop("C19", "Geometric and record primitives obey their algebraic laws",
 "Equality of points, records and headers is exact on every field, is the negation of inequality, and equal values have equal hashes; point ordering is a strict weak order consistent with equality; point and extent encoding round-trips bit for bit. The extent of a cloud is its componentwise minimum and maximum, the total extent contains both, cropping keeps exactly the points inside the closed box in order, and the center is the mean. Voxel indexes are the floor of the offset from the minimum corner over the resolution, and the voxel map and set group exactly the points of equal index.",
 ["inputs"], "all tuples of values from a boundary alphabet and all small point sets on a lattice",
 "Tests check one or two pairs; laws such as transitivity, hash consistency and completeness need all triples over tie-producing values.",
 ["spoc/point.h", "spoc/point_record.h", "spoc/extent.h", "spoc/voxel.h", "spoc/utils.h"],
 [("operators and hashes", "spoc/point.h, spoc/point_record.h"), ("get_extent / crop / get_center / voxel grouping", "spoc/extent.h, spoc/utils.h, spoc/voxel.h")],
 ["returned values"])
prop("C20", "In-memory affine and quantize operations match the transform command",
 "The library's in-memory add, scale, rotate and quantize operations change exactly the coordinates they name by the documented formula for every point of the cloud and nothing else, and give the same coordinates as the corresponding spoc_transform command. Rotation preserves the distance from its axis and is undone by the opposite rotation up to rounding; quantization truncates toward zero to a multiple of the precision and is idempotent on exact multiples, for coordinates of any finite magnitude.",
 ["inputs", "histories"], "all operations and sequences of operations over boundary coordinates and cloud sizes",
 "Tests apply each operation once to random points; large coordinates, signs and sequences are not covered.",
 ["spoc/affine.h", "spoc/utils.h", "apps/transform/transform.h"],
 [("affine::*", "spoc/affine.h"), ("quantize", "spoc/utils.h")], ["coordinates after the call"])
prop("C21", "Command lines: every documented option works, everything else is an error",
 "Every option in the documentation is accepted in its long form and its documented short form with the same effect, options may be given in any order and anywhere among the arguments, help and version succeed without reading input, version prints the library version on standard output, and help prints usage but nothing on standard output. An unknown option, a missing option argument, missing or surplus file arguments, or an unreadable input or unwritable output file makes the command exit non-zero with a message on standard error and no data on standard output.",
 ["inputs", "configurations"], "all commands and all argument vectors up to a length over the documented options and malformed variants",
 "Tests parse one or two argument vectors per command; several documented options were never exercised at all.",
 ["apps/*/*_cmd.h", "apps/*/*.cpp", "spoc/cmd.h", "spoc/app_utils.h"],
 [("get_args", "apps/*/*_cmd.h"), ("print_help", "spoc/cmd.h")], ["exit status", "stdout", "stderr"])
prop("C22", "Streaming: short reads never change results and records flow through",
 "Readers and commands give the same result however the input stream delivers its bytes (any split into short reads), so commands can be chained through pipes. spoc_transform and record-at-a-time reading process records one by one: after the first k records of the input have arrived, the first k output records can be read downstream before more input is supplied. Reading consumes exactly the bytes of the cloud when it is read record by record, so several clouds can follow each other in one stream.",
 ["schedules", "inputs"], "all splits of the input into short reads (up to a number of cut points), and all prefixes of the record stream",
 "Tests use in-memory streams and files that always deliver everything at once.",
 ["spoc/io.h", "spoc/point_record.h", "spoc/header.h", "spoc/compression.h", "apps/transform/transform.h", "spoc/app_utils.h"],
 [("sequential stream reads", "spoc/io.h, spoc/header.h, spoc/point_record.h"), ("flush per record", "spoc/point_record.h")],
 ["order of input reads and output writes", "bytes produced"])
prop("C23", "The Python binding is equivalent to the C++ library",
 "Reading a file in Python yields the same header, metadata, records and per-field arrays as the C++ library, and a cloud built in Python from those records and written out is the same file that the C++ library writes. Setting records, metadata or the compression flag in Python behaves as in C++, including the errors for inconsistent extra fields, missing files and malformed files, which surface as Python exceptions. Objects handed to Python are independent copies: changing them does not change the cloud until they are set.",
 ["inputs", "histories"], "all small clouds over boundary values and all sequences of binding calls up to a depth",
 "The Python tests read one file and check its size (and several fail here for lack of packages).",
 ["spocpy/spocpy/spocpy.cpp", "spocpy/spocpy/__init__.py"],
 [("pybind11 definitions", "spocpy/spocpy/spocpy.cpp")], ["Python objects", "files written from Python"])
prop("C24", "Printed forms of values are complete; compact and indented JSON agree",
 "Printing a JSON value of any nesting writes every element, member and scalar exactly once: integers of all widths exactly and as numbers, reals with the precision of the stream, booleans as true or false, strings in quotes, array elements in order and object members in key order. The compact and the indented form of a value differ in white space only; the compact form is a single line, and the indented form has every object member on a line of its own, indented by its depth. Printing a point, a record or a header writes all of its fields, including every extra field, in their documented order.",
 ["inputs"], "all JSON values up to a depth and width over boundary scalars of every type, all records and headers over boundary values",
 "The tests print one fixed document; the number of types times nestings times both forms is what only enumeration covers.",
 ["spoc/json.h", "spoc/point.h", "spoc/point_record.h", "spoc/header.h"],
 [("pretty_print / operator<<", "spoc/json.h"), ("operator<<", "spoc/point.h, spoc/point_record.h, spoc/header.h")], ["printed text"])
prop("C25", "Rescaling into an extent keeps order and is undone by restoring",
 "Rescaling points to an extent maps each coordinate to its share of the extent's size times 2^62: the minimum to 0, the maximum to 2^62, everything inside in between, never changing the order of two coordinates, and each axis independently of the others. Restoring the result with the same extent gives back the coordinates up to rounding, and exactly where the arithmetic is exact; a dimension without an extent is restored to its only value. Rescaling many points at once equals rescaling them one by one, in order. Area and volume of an extent are the products of its sides, and comparing points to a number of decimals is symmetric and considers every coordinate of every point.",
 ["inputs"], "all points of all listed extents, including flat, huge, tiny and far ones, and all small clouds",
 "The only test rescales one random cloud; flat, negative, tiny and far away extents are not covered.",
 ["spoc/extent.h", "spoc/point.h"],
 [("rescale / restore", "spoc/extent.h"), ("about_equal", "spoc/point.h")], ["returned points"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P))
