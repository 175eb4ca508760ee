COMMON_ASSUMPTIONS = [
    'release semantics (NDEBUG) of the sources in the repository, compiled by clang 18 at -O2 for x86-64; the standard library headers are executed as installed, the parts of libstdc++/libc that are not in headers are modelled in shim/',
    'OpenMP teams have two threads',
]
ZNOTE = 'zlib is replaced by its contract: inflate(deflate(x)) == x for every x (stored-block codec in shim/zstub.cpp)'
MANY = ['--steps', '400000000']
CH = ['--const-hash'] # hash tables see one hash value for everything; that equal keys have equal hashes is C08
PROPS = {}
def P(pid, **kw): PROPS[pid] = kw
P('C01', src='io.cpp', zlib='real',
  cases=[dict(entry='uncompressed_round_trip', reach=['chunks', 'small', 'wide']), dict(entry='stream_of_two_files'), dict(entry='many_uncompressed')])
P('C02', src='io.cpp', zlib='real', assumptions=[ZNOTE],
  cases=[dict(entry='compressed_round_trip'), dict(entry='compressed_wide'), dict(entry='convert'), dict(entry='many_compressed')])
P('C03', src='io.cpp', zlib='real',
  cases=[dict(entry='layout'), dict(entry='layout_compressed')])
P('C04', src='io2.cpp', zlib='real', assumptions=[ZNOTE],
  cases=[dict(entry='header_round_trip'), dict(entry='header_too_long'), dict(entry='header_any_bytes', reach=['short', 'rejected', 'accepted']), dict(entry='wrong_encoding')])
P('C05', src='io2.cpp', zlib='real', assumptions=[ZNOTE],
  cases=[dict(entry='truncated_uncompressed'), dict(entry='truncated_chunks'), dict(entry='truncated_wide'), dict(entry='truncated_compressed'), dict(entry='truncated_record')])
P('C06', src='any.cpp', zlib='own', assumptions=[],
  cases=[dict(entry='any_bytes', reach=['refused','accepted']), dict(entry='any_uncompressed', reach=['refused','accepted']), dict(entry='any_compressed', reach=['refused','accepted']), dict(entry='any_block', reach=['refused','accepted'])])
P('C07', src='io2.cpp', zlib='real',
  cases=[dict(entry='file_operations', reach=['end','refused']), dict(entry='file_construction'), dict(entry='columns'), dict(entry='too_many_extra')])
P('C09', src='io2.cpp', zlib='real', cases=[dict(entry='streaming')])
P('C10', src='transform.cpp', zlib='real',
  cases=[dict(entry='field_commands'), dict(entry='field_errors'), dict(entry='input_errors', reach=['good','bad']), dict(entry='command_order'), dict(entry='many_fields', opts=MANY)])
P('C11', src='transform.cpp', zlib='real',
  cases=[dict(entry='coordinate_commands'), dict(entry='library_coordinates'), dict(entry='quantize_meaning'), dict(entry='noise'), dict(entry='many_coordinates', opts=MANY)])
P('C13', src='filter.cpp', zlib='real', cases=[dict(entry='classes', reach=['none','some','all']), dict(entry='many_classes', opts=MANY)])
P('C14', src='filter.cpp', zlib='real', cases=[dict(entry='unique', opts=CH, reach=['one','some','all']), dict(entry='many_unique', opts=MANY)])
P('C15', src='filter.cpp', zlib='real', cases=[dict(entry='subsample', opts=CH, reach=['one','some','all']), dict(entry='subsample_indexes', opts=CH), dict(entry='subsample_wide'), dict(entry='same_seed', opts=CH), dict(entry='many_subsample', opts=MANY)])
P('C16', src='filter.cpp', zlib='real', cases=[dict(entry='remove_coordinates', reach=['none','some','all']), dict(entry='remove_coordinates_errors'), dict(entry='many_coordinates', opts=MANY)])
P('C17', src='multi.cpp', zlib='real', cases=[dict(entry='tile_sizes', opts=CH, reach=['one','many']), dict(entry='tile_counts', opts=CH, reach=['one','many']), dict(entry='tile_existing', opts=CH), dict(entry='tile_far', opts=CH)])
P('C18', src='multi.cpp', zlib='real', cases=[dict(entry='merge_files'), dict(entry='merge_errors', reach=['good','bad']), dict(entry='merge_many', opts=MANY), dict(entry='merge_many_files', opts=MANY)])
P('C19', src='multi.cpp', zlib='real', cases=[dict(entry='diff_verdict', reach=['same','different']), dict(entry='diff_shape', reach=['same','different']), dict(entry='diff_fields', reach=['same','different']), dict(entry='diff_errors'), dict(entry='diff_many', opts=MANY, reach=['same','different'])])
P('C08', src='lib.cpp', zlib='real', cases=[dict(entry='point_order'), dict(entry='hashes')])
P('C20', src='lib.cpp', zlib='real', cases=[dict(entry='voxels'), dict(entry='voxels_wide'), dict(entry='voxel_maps', opts=CH, reach=['one','some','all']), dict(entry='voxel_maps_many', opts=MANY)])
P('C21', src='lib.cpp', zlib='real', cases=[dict(entry='neighbors', opts=CH), dict(entry='neighbors_limit', opts=CH)])
P('C22', src='lib.cpp', zlib='real', cases=[dict(entry='extents'), dict(entry='total_extent'), dict(entry='crops', reach=['none','some','all']), dict(entry='extents_many', opts=MANY)])
P('C24', src='lib.cpp', zlib='real', cases=[dict(entry='encodings'), dict(entry='encodings_many')])
P('C25', src='tool.cpp', zlib='real', cases=[dict(entry='get_field'), dict(entry='set_field'), dict(entry='set_field_errors'), dict(entry='move_points'), dict(entry='resize_fields', reach=['good','bad']), dict(entry='upsample', opts=CH)])
P('C28', src='info.cpp', zlib='real', cases=[dict(entry='summary', opts=CH), dict(entry='header_report'), dict(entry='class_report', opts=CH), dict(entry='class_many', opts=MANY), dict(entry='metric_report', opts=CH), dict(entry='info_files', reach=['good','bad'])])
P('C29', src='srs.cpp', zlib='real', cases=[dict(entry='srs_set'), dict(entry='srs_in_place'), dict(entry='srs_get', reach=['good','bad']), dict(entry='srs_errors'), dict(entry='srs_long')])
FW=['failed','written']
P('C31', src='writes.cpp', zlib='stub', assumptions=[ZNOTE, 'files take bytes when their stream buffer (8 KiB, stdout: 4 KiB) is full, flushed or closed, up to the point of failure (RLIMIT_FSIZE in native replays)'], cases=[dict(entry='tool_writes', opts=CH, reach=FW), dict(entry='text_writes', opts=CH, reach=FW), dict(entry='tile_writes', opts=CH, reach=FW), dict(entry='library_writes', reach=FW), dict(entry='large_writes', reach=FW)])
P('C32', src='points.cpp', zlib='real', cases=[dict(entry='arithmetic'), dict(entry='about_equals'), dict(entry='special_values'), dict(entry='distances'), dict(entry='centers'), dict(entry='columns'), dict(entry='printing')])
P('C33', src='json.cpp', zlib='real', cases=[dict(entry='leaves'), dict(entry='lists'), dict(entry='objects'), dict(entry='nested')])
MD=dict(defs=['MODEL'], zlib='own')
P('C26', src='compression.cpp', zlib='stub', assumptions=[ZNOTE, 'in the entries *_block and *_stream zlib is its interface contract: a call takes all of the input it was given or fills the output window, and it gives any return value that the manual allows'],
  cases=[dict(entry='compress_block', **MD), dict(entry='decompress_block', reach=['complete','refused'], **MD), dict(entry='start_failures', **MD), dict(entry='compress_stream', reach=['failed','end'], **MD), dict(entry='decompress_stream', reach=['failed','end'], **MD),
         dict(entry='round_trip'), dict(entry='expected_size', reach=['refused','accepted']), dict(entry='damaged'), dict(entry='large_round_trip')])
P('C23', src='lib.cpp', zlib='real', cases=[dict(entry='rescaling')])
P('C27', src='par.cpp', zlib='stub', assumptions=[ZNOTE], cases=[dict(entry='point_loops'), dict(entry='voxel_loops'), dict(entry='search_loops', opts=CH), dict(entry='column_loops'), dict(entry='tool_loops', src='writes.cpp', opts=CH)])
P('C12', src='options.cpp', zlib='stub', assumptions=[ZNOTE], cases=[dict(entry=e, opts=CH) for e in ('option_forms','help_and_version','unknown_options','missing_arguments','conflicts')])
RA=['refused','accepted']
P('C30', src='options.cpp', zlib='stub', assumptions=[ZNOTE], cases=[dict(entry=e, opts=CH, reach=RA) for e in ('transform_numbers','transform_integers','field_names','option_numbers','conditions')]+[dict(entry='missing_values', opts=CH)])
