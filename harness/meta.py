# What every property says, where it is anchored and what its check covers.
# gen.py writes properties.jsonl and MANIFEST.json from this.
META = {}
def M(pid, title, statement, text, why, files, mech, bounds, over=('inputs',)):
    META[pid] = dict(title=title, statement=statement, over=list(over), text=text, why=why, files=files, mech=mech, bounds=bounds)

M('C01', 'Uncompressed files round trip bit for bit',
  'Reading back an uncompressed point cloud file yields exactly what was written: the spatial reference, the flags, the order of the points and every bit of every field, whatever the number of points and extra fields. Several files written one after the other to a stream are read back one after the other.',
  'every value of every field of every point, every spatial reference byte, point counts around the chunking limits, extra field counts up to 255',
  'Tests write a few random clouds with small extra field counts; special bit patterns and the combinations of record size and buffer size are not sampled.',
  ['spoc/io.h', 'spoc/header.h', 'spoc/file.h', 'spoc/point_record.h'],
  [('chunked uncompressed reader and writer', 'spoc/io.h'), ('header reader and writer', 'spoc/header.h')],
  'points in {0,1,2,3,25,26,51} (quick) with extra fields in {0,1,2,123,124,255} (few points for the wide ones), WKT up to 5 bytes; all field values, NaN payloads included, symbolic')
M('C02', 'Compressed files and conversions round trip bit for bit',
  'Reading back a compressed point cloud file yields exactly what was written, whichever of its columns are constant, zero or absent. Converting a file to the compressed or the uncompressed form with the tools changes nothing but the compression flag, so that converting there and back gives the original bytes.',
  'every value of every field of every point, which decides which columns are left out of the file',
  'A column is dropped from the file depending on its values; tests only use random values and all zeros (negative zeros were lost).',
  ['spoc/io.h', 'spoc/compression.h', 'apps/compress/compress.cpp', 'apps/decompress/decompress.cpp'],
  [('column compression and zero column elimination', 'spoc/io.h'), ('tools', 'apps/compress/compress.cpp, apps/decompress/decompress.cpp')],
  'up to 3 points, up to 2 extra fields (255 with one point), all values symbolic; zlib replaced by its contract (stored-block codec); both OpenMP threads of the writer run in order')
M('C03', 'The bytes on disk follow the documented layout',
  'A written file has the documented byte layout: signature, versions, the compression flag, counts, spatial reference and then fixed size records (or one length-prefixed deflated block per column), all little endian. Files written by any conforming implementation are readable.',
  'every field value, flags, versions and sizes', 'Tests only read what the library itself wrote, so a symmetric change of writer and reader goes unnoticed.',
  ['spoc/io.h', 'spoc/header.h', 'README.md'], [('writers', 'spoc/io.h, spoc/header.h')],
  'up to 3 points, 2 extra fields, WKT of 3 bytes; every byte of the file compared to an independent encoder; independent decoder for compressed columns')
M('C04', 'Headers round trip and invalid headers are rejected',
  'A header that was written is read back equal in all its members; a header that cannot be represented is refused when writing. Reading arbitrary bytes as a header either fails with an error or gives a header that is consistent with these bytes, and a header with a wrong signature, an unsupported version or the wrong compression flag for the requested reader is refused.',
  'all 18 bytes of the fixed part and the spatial reference symbolic', 'Tests corrupt one or two chosen bytes.',
  ['spoc/header.h', 'spoc/io.h'], [('read_header, write_header, check_signature', 'spoc/header.h')],
  'WKT up to 3 bytes; 24 arbitrary bytes for the reader')
M('C05', 'Truncated files are reported, never returned as data',
  'Reading any proper prefix of a valid file fails with an error: missing bytes are never made up and incomplete points are never returned. This holds at every cut position for both storage forms and for single record reads.',
  'every cut position and every content', 'Tests cut files at one or two places; short reads in the middle of records went unnoticed.',
  ['spoc/io.h', 'spoc/header.h', 'spoc/compression.h'], [('stream checks after each read', 'spoc/io.h')],
  'up to 3 points (26 and 51 for the chunk borders), up to 2 (124) extra fields, all cut positions', ('inputs', 'fault_sequences'))
M('C06', 'Reading arbitrary bytes is memory safe and ends',
  'Reading any byte sequence as a file ends, either with an error or with a consistent point cloud, without undefined behaviour: no access outside of buffers, no use of uninitialised data, no overflow of sizes. An accepted input contains as many points as its header says.',
  'all bytes of the input symbolic', 'Tests read a handful of corrupted files without sanitizers.',
  ['spoc/io.h', 'spoc/header.h', 'spoc/compression.h', 'spoc/file.h'], [('reader size checks', 'spoc/io.h, spoc/compression.h')],
  'inputs up to 24 arbitrary bytes; structured headers with up to 2 points followed by arbitrary bytes; arbitrary inflate results; allocations above 2^26 bytes are treated as bad_alloc')
M('C07', 'Point cloud objects stay consistent under all operations',
  'After any sequence of operations on a point cloud object its header agrees with its points (count, extra fields) and all points have the same number of extra fields; operations that would break that are refused and leave the object unchanged. Column accessors return the column of every point in order.',
  'operation sequences with symbolic contents', 'Tests call each operation once on a small object.',
  ['spoc/file.h', 'spoc/point_record.h'], [('class invariant', 'spoc/file.h')],
  'sequences of 3 operations (4 thorough), up to 3 points, up to 2 extra fields; construction with up to 256 extra fields', ('inputs', 'histories'))
M('C08', 'Equality, ordering and hashing of points agree',
  'Points, records and headers compare equal exactly when all their members are equal; the ordering used for sorting is a strict weak order that orders by the documented members; equal keys have equal hashes, positive and negative zero included.',
  'all values of up to three compared objects', 'Tests compare a few chosen values.',
  ['spoc/point.h', 'spoc/point_record.h', 'spoc/header.h', 'spoc/voxel.h'], [('operator==, operator<, std::hash', 'spoc/point.h, spoc/point_record.h')],
  'three points, two records with up to 2 extra fields, two headers, two voxel indexes; all members symbolic, no NaN where order is concerned')
M('C09', 'Record streaming equals whole file reading',
  'Processing a file record by record (header, then one point at a time) reads and writes the same bytes as loading and saving the whole file.',
  'all field values', 'Tests check the points they chose.',
  ['spoc/io.h', 'spoc/point_record.h'], [('read_point_record, write_point_record', 'spoc/io.h')],
  'up to 3 points, up to 2 extra fields, everything symbolic')
M('C10', 'Transform commands change exactly the named field',
  'Setting, replacing, copying or excluding field values changes exactly the named field of exactly the selected points to exactly the given value, in the order in which the commands are given, whichever field it is and however input and output are connected. Invalid input or commands end in an error without output.',
  'all points and values symbolic, every command and field', 'Tests run each command on few values and look at one field (replace-not wrote the wrong one).',
  ['apps/transform/transform.h', 'apps/transform/transform.cpp', 'apps/transform/transform_cmd.h'],
  [('command application', 'apps/transform/transform.h')],
  '2 points, 2 extra fields, all values symbolic; values on the command line below 2^31 for fields and below 2^49 for extra fields; typed doubles not subnormal')
M('C11', 'Coordinate transforms compute the documented formula',
  'Translation, scaling, rotation about an axis, quantisation and the affine matrix functions apply the documented formula to the coordinates of every point and leave every other field and the order of the points alone. Noise commands add one draw of the documented distribution per coordinate and depend on the seed only.',
  'all coordinates and parameters, any random draw', 'Tests check fixed vectors with tolerance; quantisation overflowed for large values.',
  ['apps/transform/transform.h', 'spoc/affine.h', 'spoc/point.h'], [('transform functions', 'apps/transform/transform.h'), ('affine matrices', 'spoc/affine.h')],
  '2 points, coordinates arbitrary doubles, sin and cos uninterpreted but equal for equal arguments')
M('C12', 'Documented options and commands are accepted',
  'Every option and every command that a tool documents in its usage text or manual page is accepted in its long and its short form, before or after the file names, and every form means the same. Verbose mode changes no output. An unknown option, a missing argument or a combination that the tool refuses ends in an error with a message and without output. Help and version end successfully for every tool, and asking for them never touches a file; help lists every option.',
  'all tools, options, forms and unknown names', 'Tests do not run the command line parsers; documented commands were rejected and spoc_diff could not print its version.',
  ['apps/transform/transform_cmd.h', 'apps/filter/filter_cmd.h', 'apps/tool/tool_cmd.h', 'apps/info/info_cmd.h', 'apps/merge/merge_cmd.h', 'apps/tile/tile_cmd.h', 'apps/srs/srs_cmd.h', 'apps/diff/diff_cmd.h', 'apps/compress/compress_cmd.h', 'apps/decompress/decompress_cmd.h', 'spoc/cmd.h'],
  [('get_args of each tool', 'apps/*/*_cmd.h'), ('print_help', 'spoc/cmd.h'), ('main of each tool', 'apps/*/*.cpp')],
  'each of the 10 tools; each documented option in each of its forms on a 2 point file with symbolic record fields; any unknown option letter, any unknown word of 2 and 3 letters and any letter behind a known name; any input and output file bytes for help and version. Outside: abbreviated long options, the wording of messages.', ('configurations',))
M('C13', 'Filtering by class keeps exactly the right points',
  'Keeping or removing classes outputs exactly the points whose class is, or is not, in the given list, unchanged and in order. The spatial reference and the storage form stay.',
  'all points and class lists', 'Tests use a few classes.', ['apps/filter/filter.h', 'apps/filter/filter.cpp'], [('keep_classes, remove_classes', 'apps/filter/filter.h')],
  '3 points (4 thorough), 1 extra field, lists of up to 2 classes with values below 2^31')
M('C14', 'Removing duplicates keeps one point per location for any seed',
  'Removing duplicate locations keeps exactly one of the input points of every distinct location, unchanged, for any random seed. Without a seed it is the first one, and the original order is kept.',
  'all coordinates, all permutations a random generator can produce', 'Tests try a few seeds and clouds.', ['apps/filter/filter.h', 'spoc/point.h'], [('unique_xyz', 'apps/filter/filter.h'), ('std::hash of points', 'spoc/point.h')],
  '3 points; every shuffle result; every hash value equal (equal keys have equal hashes is C08)', ('inputs', 'schedules'))
M('C15', 'Subsampling keeps one point per voxel for any seed',
  'Subsampling at a resolution keeps exactly one point of every occupied voxel, unchanged, for any random seed, and the same seed gives the same result. Without a seed it is the first one, and the original order is kept. The index functions return exactly such a selection.',
  'coordinates on a grid, all permutations', 'Tests count the result of a few seeds.', ['spoc/subsampling.h', 'spoc/voxel.h', 'apps/filter/filter.h'], [('get_subsample_indexes', 'spoc/subsampling.h'), ('voxel indexing', 'spoc/voxel.h')],
  '3 points with coordinates on a grid of 4 to 6 bits per axis, resolutions {0.5, 1, 3}, every shuffle result; 2 points with integer coordinates below 2^34 and the real hash function', ('inputs', 'schedules'))
M('C16', 'Removing by coordinate removes exactly the matching points',
  'Removing points with a coordinate above or below a limit removes exactly these, comparing exactly, and keeps the others unchanged and in order. A malformed condition is an error.',
  'all coordinates and limits', 'Tests use a few values.', ['apps/filter/filter.h', 'apps/filter/filter.cpp'], [('remove_coords', 'apps/filter/filter.h')],
  '3 points (4 thorough), every double for coordinates (NaN included), every normal double for the limit')
M('C17', 'Tiles partition the point cloud',
  'Tiling writes every point to exactly one tile file, unchanged and in order, and two points share a file exactly when they lie in the same cell of the grid of the requested tile size or count. Tiles keep the spatial reference and storage form, are named by prefix and number, and existing files survive unless overwriting was requested.',
  'coordinates on a grid, sizes, counts, prefixes', 'Tests tile one cloud and count tiles.', ['apps/tile/tile.h', 'apps/tile/tile.cpp'], [('get_tile_indexes', 'apps/tile/tile.h'), ('file naming and overwrite check', 'apps/tile/tile.cpp')],
  '2 points (3 thorough) on a 4 to 6 bit grid for sizes {1.5, 3} (1 thorough); 3 points in extents of 0, 3 or 7 half units for counts {1,2,4}; coordinates are multiples of 0.5')
M('C18', 'Merging concatenates the inputs',
  'Merging outputs the points of all inputs in order, unchanged, with the point source set to the number of the file when asked for, and the spatial reference and storage form of the first input or as requested. Inputs that cannot be merged are reported and nothing is written.',
  'all points, all option combinations', 'Tests merge a few clouds through the library.', ['apps/merge/merge.cpp', 'apps/merge/merge.h'], [('append', 'apps/merge/merge.h')],
  '2 files (3 thorough) of up to 2 points, 1 extra field, everything symbolic')
M('C19', 'Diff reports equality exactly',
  'The diff tool ends with success exactly when the selected parts of both files (header, data, or the named fields) are equal, or different in reverse mode. Errors and conflicting options are never reported as equality.',
  'all points of both files, all selections', 'Tests compare a few clouds; fields present in one file only were reported as equal.', ['apps/diff/diff.h', 'apps/diff/diff.cpp'], [('comparison functions', 'apps/diff/diff.h')],
  '1 to 2 points, up to 2 extra fields, one differing field at most (any field), or different shapes up to 2 points; no NaN coordinates')
M('C20', 'Voxel indexes partition space',
  'Points get the same voxel index exactly when they lie in the same cell of the grid that starts at the minimum of the extent; indexes are below the number of voxels per axis, and the voxel map lists every point exactly once under its index.',
  'coordinates on a grid and resolutions', 'Tests check a few points.', ['spoc/voxel.h', 'spoc/extent.h'], [('get_voxel_indexes, get_voxel_map', 'spoc/voxel.h')],
  '2 points (3 thorough) on a 4 bit grid per axis in units of 0.5, resolutions {0.5, 1, 1.5, 3}, own, given and index extents; one point at integer coordinates below 2^48 with resolutions {0.125, 1, 4}; maps of 3 (4 thorough) arbitrary voxel indexes')
M('C21', 'Radius search finds exactly the neighbours within the radius',
  'Searching the neighbours of points returns exactly the points whose distance is within the radius, each once, among the points allowed as neighbours, and no more than the requested number. Every requested point is searched exactly once.',
  'coordinates on a grid, radii', 'Tests compare with brute force on random clouds.', ['spoc/radius_search.h', 'spoc/voxel.h'], [('radius_search', 'spoc/radius_search.h')],
  '3 points (4 thorough): one in the corner and the others on an 8x4 grid in units of 0.5, radii {0.5, 1, 1.5}, all four search functions; 4 points on a line for the limit on the number of neighbours')
M('C22', 'Extents are tight bounds and cropping respects them',
  'The extent of a point cloud is the exact minimum and maximum of the coordinates in each axis, and the total of two extents covers exactly both. Cropping to an extent keeps exactly the points inside it, borders included, unchanged and in order.',
  'all coordinates that are not NaN', 'Tests check a few clouds.', ['spoc/extent.h'], [('get_extent', 'spoc/extent.h')],
  '3 points (4 thorough), every finite double; total extents, comparisons and cropping of 2 points (3 thorough) with every double that is not NaN')
M('C23', 'Rescaling and restoring are inverse',
  'Rescaling points relative to an extent maps each coordinate to its position in the range from 0 to 2^62, the corners to the ends and in the same order, and restoring gives back the coordinates within the precision of a double, for every extent including flat ones.',
  'coordinates on a grid', 'Tests use random clouds and tolerances.', ['spoc/extent.h'], [('rescale, restore', 'spoc/extent.h')],
  '4 points, one axis at a time with two coordinates at any of up to 65 positions; 8 extents per axis (flat, powers of two, odd ratios, large offsets)')
M('C24', 'Encoded points and extents decode to the same values',
  'Encoding points or extents into bytes and decoding them gives the same values bit for bit, with little endian coordinates in the order x, y, z.', 'all points', 'Tests use random points.', ['spoc/point.h', 'spoc/extent.h'], [('encode and decode functions', 'spoc/point.h')], 'up to 3 points, everything symbolic')
M('C25', 'The field tool changes exactly what its command names',
  'Getting a field prints one value per point, in order, that reads back as the same value; setting a field from such a list sets that field of each point in order and nothing else, and a list that is too short or malformed or a field that does not exist is reported without output. Recentering and moving the minimum to the origin change exactly the named coordinates by the mean or minimum, and resizing changes exactly the number of extra fields. Upsampling gives every point the class of the subsampled point in its voxel, if there is one, and changes nothing else.',
  'all points, all fields', 'Tests use a few integral values.', ['apps/tool/tool.h', 'apps/tool/tool.cpp', 'apps/tool/tool_cmd.h'], [('get_field, set_field, recenter, subtract_min, resize_extra, upsample_classifications', 'apps/tool/tool.h'), ('main', 'apps/tool/tool.cpp')],
  'up to 2 points (3 thorough) and 2 extra fields with every value of every field; coordinates of at most 16 significant digits when printed; recentering of 0, 1, 2 (4 thorough) points and the minimum on a 6 bit grid per axis; upsampling of 3 points on a 5 bit grid in one axis; surplus values in a list and values out of the range of the field are outside')
M('C26', 'Byte compression is lossless for any content and size',
  'Compressing and decompressing any byte sequence, as a block or as a stream, returns the same bytes for any size, in particular around the buffer sizes and above 4 GiB: every byte is handed to zlib once, in order, and every byte it gives is kept. A damaged, truncated or unexpectedly sized compressed stream, a stream that fails and a zlib stream that cannot be set up are errors, and every call ends and releases what it set up.',
  'all contents and sizes, all behaviours of zlib', 'Tests use a few sizes below 2^20.', ['spoc/compression.h'], [('compress, decompress, zlib_deflator, zlib_inflator', 'spoc/compression.h')],
  'blocks of every size up to 3 * 2^32 (5 * 2^32 thorough), streams of 0, 1, 2 and around 2^20 and 2^21 bytes, with zlib taking and giving any amounts that its contract allows (up to 2 full output windows, 16 calls); round trips of 0 to 5 arbitrary bytes and of sizes around 2^20 with 4 arbitrary bytes')
M('C27', 'Parallel loops do not interfere',
  'The parallel sections give the same result as a single thread for every number of threads and every schedule: no two threads access the same memory with a write among them, apart from synchronised accesses, and each iteration runs exactly once. This holds for the library and for every tool.',
  'all pairs of iterations on different threads', 'Tests run with the default thread count and cannot force interleavings.', ['spoc/io.h', 'spoc/voxel.h', 'spoc/radius_search.h', 'spoc/affine.h', 'spoc/utils.h'], [('OpenMP loops', 'spoc/io.h')],
  '2 threads, and one thread per iteration, with the accesses of all threads compared and two thread orders run; 3 points (columns: 1 to 3 points with 0 to 2 extra fields and content in all columns but two), every value; tools: 24 commands on 4 points on a grid', ('schedules', 'inputs'))
M('C28', 'Reported statistics describe the file',
  'The info tool reports the exact header, the minimum, maximum, range and quartiles of every field, the number of points of every class that occurs, and the point densities per area and per occupied unit cell and cube, for every input. Text and JSON form, compact or not, carry the same values to their printed precision. Files are reported in the order given, and a file that cannot be read is an error.',
  'all values of a field, all orders of the points', 'Tests compare a few runs with stored output.', ['apps/info/info.h', 'apps/info/info.cpp', 'apps/info/info_cmd.h', 'spoc/json.h', 'spoc/asprs.h'], [('get_summary_object, get_summary_string, get_class_count_map, get_metric_values, process', 'apps/info/info.h'), ('pretty_print, operator<<', 'spoc/json.h')],
  '0 to 3 points (5 thorough) with every value of one field at a time (no NaN, no negative zero), every order, every combination of JSON, compact and quartiles; classes of 0 to 3 points in windows of 4 classes at 0, 98, 998 and 2^32 - 4; densities of 4 points on a 3 bit grid; a spatial reference of 0 to 3 characters other than quotes and white space')
M('C29', 'Changing the spatial reference changes nothing else',
  'Setting or clearing the spatial reference replaces exactly that text and keeps the storage form and every point, also when a file is its own output; a text that does not fit into the header is an error. Showing it prints exactly the stored texts, file after file in the order given. Files that cannot be read and wrong numbers of files are errors without output.',
  'all points and texts', 'Tests run it on one file.', ['apps/srs/srs.cpp', 'apps/srs/srs_cmd.h', 'spoc/header.h'], [('main', 'apps/srs/srs.cpp'), ('get_args', 'apps/srs/srs_cmd.h')],
  '0 to 3 points with 0 to 2 extra fields (255 in the thorough tier) and 1 point with 40, every value; old texts of 0 to 2 and new texts of 0 to 3 arbitrary bytes, and texts of 255 to 70000 bytes with 3 arbitrary bytes; up to 3 files to show, one of which may be damaged, cut or missing; compressed points have content in all columns but two')
M('C30', 'Malformed command arguments are errors',
  'An argument that is not of the documented form (text that is not a number, a number with other characters behind it, an unknown field name, an extra field that the file does not have, a missing value, an unknown comparison) ends the tool with an error and a message, and never with complete output computed from a misread value. A well formed argument is used as it is written.',
  'all short argument texts', 'Tests pass well formed arguments.', ['spoc/cmd.h', 'spoc/app_utils.h', 'apps/transform/transform.h', 'apps/filter/filter.h', 'apps/filter/filter_cmd.h', 'apps/tool/tool.cpp', 'apps/tile/tile_cmd.h', 'apps/merge/merge_cmd.h'],
  [('consume_field_name, consume_int, consume_ints, consume_double', 'spoc/app_utils.h'), ('parse_long, parse_int, parse_double', 'spoc/cmd.h'), ('apply', 'apps/transform/transform.h'), ('remove_coords', 'apps/filter/filter.h')],
  'every text of up to 2 (numbers of set: 3; field names: 3; thorough: one more) arbitrary bytes for each command and numeric option. Left open: leading white space and plus signs, hexadecimal numbers, infinities, NaN and exponents (accepted or not), surplus comma separated values behind a complete argument (the existing tests require that they are ignored), negative sizes and seeds.')
M('C31', 'Failed writes are reported',
  'When the output cannot be written completely, the tools and the library report an error: a tool that ends successfully, and a writer that returns without an exception on a stream in good state, have handed over every byte of the output, whatever buffers lie in between.',
  'every position at which the device fails', 'Tests never make a write fail.', ['spoc/io.h', 'spoc/header.h', 'spoc/point_record.h', 'apps/tool/tool.cpp', 'apps/srs/srs.cpp', 'apps/info/info.cpp', 'apps/merge/merge.cpp', 'apps/tile/tile.cpp', 'apps/transform/transform.h'], [('stream checks after writing', 'spoc/io.h'), ('main', 'apps/*/*.cpp')],
  'clouds of 1 to 4 points with 0 to 1 extra fields and content in every column, and one of 230 points that needs several buffers; the device fails after any number of bytes (quick: every byte near both ends and some between); files, stdout, and a stream with no, a small or an unlimited buffer', ('fault_sequences', 'inputs'))
M('C32', 'Point arithmetic, comparison and columns follow the documentation',
  'Adding and subtracting points works on every coordinate and leaves the operands alone; values, points and lists are about equal exactly when every difference rounds to zero at the given number of decimals; the distance is euclidean and symmetric; the center is the mean of the coordinates. A column of a cloud holds the values of its field in the order of the points, and a column counts as empty exactly when all its values are zero. Points and records print all values in the order of the fields.',
  'all values of the coordinates and fields', 'Tests use a few fixed points.', ['spoc/point.h', 'spoc/utils.h', 'spoc/point_record.h'], [('operator+, operator-, about_equal, distance, operator<<', 'spoc/point.h'), ('get_center', 'spoc/utils.h'), ('get_x ... get_extra, has_all_zero_*, operator<<', 'spoc/point_record.h')],
  'arithmetic: every pair of points of doubles without NaN in operands or results, or of 64 bit integers; comparisons: 4 bit signed grids whose steps lie around the rounding limit of 0, 1, 3 and 9 decimals, near the origin and near 2^20, and differences within 2^-26 of the limit of 0 and 2 decimals, lists of 0 to 3 points, every finite value against itself, infinities and NaN; distances: 6 bit grids near the origin and near 2^27, with one difference of up to 25 bits; centers: 1, 2, 4 (8 thorough) points on such grids; columns of 0 to 3 (4 thorough) points with 0 to 2 extra fields, every value; printed numbers are compared at the precision of the stream', ('inputs',))
M('C33', 'JSON text reads back as the value that was printed',
  'Every value that the JSON printer supports is written as text that has exactly the structure of the value: brackets, separators, names in order, numbers with their full value, booleans as true and false, texts as they are between quotes. Compact and indented text carry the same value, at the top level and at any depth, and compact text has no line breaks of its own.',
  'all values, names and shapes', 'Tests print two fixed objects.', ['spoc/json.h'], [('operator<<, pretty_print', 'spoc/json.h')],
  'every value of every supported type alone; lists and objects of 0 to 3 members with one member of any type, names of 0 to 1 arbitrary bytes in any order; every nesting of lists and objects of up to 3 levels with 0 to 2 members per level (innermost level 0 to 1, thorough: 0 to 2) over 16 bit numbers and texts of 1 arbitrary byte; texts of 0 to 2 arbitrary bytes. Not covered: infinities and NaN (their text is not JSON), and quotes within texts, which the printer does not escape', ('inputs',))
NA = {
}
# larger counts, so that a counter of 16 bits (of 8 bits for files) is too narrow
for _p in ('C01', 'C02', 'C10', 'C11', 'C13', 'C14', 'C15', 'C16', 'C18', 'C19', 'C20', 'C22', 'C24', 'C28'):
    META[_p]['bounds'] += '; in one case 65,545 points of known values with one to five symbolic ones among them' + ('; 258 files of one point' if _p == 'C18' else '')
META['C17']['bounds'] += '; four points up to 2^32 tiles apart in x or y, so that tile numbers take up to 34 bits'
META['C33']['bounds'] += '; a minus sign is printed exactly for negative values'
