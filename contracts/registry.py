"""Which contracts decide which property.

PROPS[id] = level, units: [{harness, sources (of /repo), entries: {name: {opts, bound, ...}}}]
"""
S = 'src/paimon/common/'
STATUS = S + 'utils/status.cpp'
AC = {'accel': True}
KP = {'keep_ptr': True}
SEARCH = {'native_only': 'bounded search on the compiled code, not counted as proved', 'fuzz': 20000}
PROPS = {}
NOT_APPLICABLE = {
    'C30': 'quantifies over thread schedules of std::thread, condition variables and futures; the verifier decides sequential contracts only',
    'C31': 'the committing and file-system code needs Apache Arrow/Avro headers that are not installed, so it cannot be compiled for extraction; crash points are outside pre/postconditions',
    'C32': 'the merge-on-read reader stack needs Apache Arrow headers that are not installed, so it cannot be compiled for extraction',
}

PROPS['C01'] = {
    'level': 'other',
    'units': [{
        'harness': 'C01.cpp',
        'sources': [S + 'utils/delta_varint_compressor.cpp', STATUS],
        'entries': {
            'roundtrip0': {'opts': KP},
            'roundtrip1': {'opts': KP},
            'roundtrip2': {'opts': KP},
            'roundtrip3': {'opts': KP, 'bound': 'lists of at most 3 values', 'thorough_only': True},
            'damaged1': {'opts': KP},
            'damaged3': {'opts': KP},
            'damaged_long': {'opts': KP, 'bound': 'one value, at most 12 bytes'},
            'search_roundtrip': SEARCH,
            'search_damaged': SEARCH,
        }}]}

IO = S + 'io/'
STREAMS = [IO + 'data_input_stream.cpp', IO + 'data_output_stream.cpp', IO + 'byte_array_input_stream.cpp',
           S + 'memory/bytes.cpp', STATUS]
PROPS['C02'] = {
    'level': 'proof',
    'units': [{
        'harness': 'C02.cpp',
        'sources': STREAMS,
        'entries': {n: {} for n in
                    ['value_bool', 'value_char', 'value_i16', 'value_u16', 'value_i32', 'value_i64', 'value_default_order',
                     'read_char', 'read_i8', 'read_i16', 'read_u16', 'read_i32', 'read_i64', 'read_float',
                     'string', 'string_any', 'bytes', 'raw_any', 'short_write']}}]}

PROPS['C03'] = {
    'level': 'proof',
    'units': [{
        'harness': 'C03.cpp',
        'sources': [IO + 'byte_array_input_stream.cpp', IO + 'offset_input_stream.cpp', STATUS],
        'entries': {n: {} for n in
                    ['array_read', 'array_positioned', 'array_async', 'array_seek', 'array_refused', 'array_reads', 'array_raw',
                     'window_first', 'window_read', 'window_positioned', 'window_async', 'window_seek', 'window_refused',
                     'window_reads', 'window_null', 'bad_origin']}}]}

PROPS['C04'] = {
    'level': 'proof',
    'units': [{
        'harness': 'C04.cpp',
        'sources': [IO + 'buffered_input_stream.cpp', S + 'memory/bytes.cpp', STATUS],
        'entries': dict({n: {} for n in ['fresh', 'read_read', 'consumed_read', 'read_seek_read', 'read_read_seek', 'positioned']},
                        read_read_read={'thorough_only': True}, search_history=SEARCH)}]}

MEM = [S + 'memory/bytes.cpp', S + 'memory/memory_segment.cpp', STATUS]
PROPS['C07'] = {
    'level': 'proof',
    'units': [{
        'harness': 'C07.cpp',
        'sources': MEM,
        'entries': dict({n: {} for n in
                         ['value_bool', 'value_char', 'value_i8', 'value_i16', 'value_i32', 'value_i64', 'value_float', 'value_double',
                          'bool_any_byte', 'byte', 'get_bytes', 'put_bytes', 'get_put_all', 'copy_to', 'copy_to_unsafe', 'swap']},
                        equal={'bound': 'at most 26 compared bytes'}, compare={'bound': 'at most 18 compared bytes'},
                        compare_len={'bound': 'at most 10 compared bytes'},
                        equal_any={'opts': AC, 'thorough_only': True}, compare_any={'opts': AC, 'thorough_only': True},
                        compare_len_any={'opts': AC, 'thorough_only': True}, search_equal=SEARCH)}]}

PROPS['C12'] = {
    'level': 'proof',
    'units': [{
        'harness': 'C12.cpp',
        'sources': [S + 'data/timestamp.cpp', STATUS],
        'entries': dict({n: {} for n in ['parts', 'micro', 'nano', 'order', 'order_nano', 'compact']}, search_print=SEARCH)}]}

C = 'src/paimon/core/'
PROPS['C24'] = {
    'level': 'proof',
    'units': [{
        'harness': 'C24.cpp',
        'sources': [S + 'types/row_kind.cpp', C + 'manifest/file_kind.cpp', C + 'manifest/file_source.cpp',
                    C + 'table/source/startup_mode.cpp', STATUS],
        'entries': {n: {} for n in ['row_kind_byte', 'row_kind_codes', 'row_kind_text', 'file_kind', 'file_source', 'startup_mode', 'startup_names']}}]}

# the ways through list code are followed one by one
PATHS = {'opts': {'merge': False}}


def paths(names, **bounds):
    d = {n: dict(PATHS) for n in names}
    for n, b in bounds.items():
        d[n] = dict(PATHS, bound=b)
    return d


PROPS['C13'] = {
    'level': 'other',
    'units': [{
        'harness': 'C13.cpp',
        'sources': [S + 'utils/range.cpp'],
        'entries': dict(paths(['pair', 'count', 'merge0', 'and02', 'exclude0'],
                              merge1='lists of 1 range', merge2='lists of 2 ranges', merge3='lists of 3 ranges', merge4='lists of 4 ranges',
                              and11='lists of 1 and 1 ranges', and12='lists of 1 and 2 ranges', and21='lists of 2 and 1 ranges',
                              and22='lists of 2 and 2 ranges', and23='lists of 2 and 3 ranges',
                              exclude1='lists of 1 excluded range', exclude2='lists of 2 excluded ranges', exclude3='lists of 3 excluded ranges'),
                        search_merge=SEARCH, search_and=SEARCH, search_exclude=SEARCH)}]}
PROPS['C14'] = {
    'level': 'other',
    'units': [{
        'harness': 'C14.cpp',
        'sources': [STATUS],
        'entries': dict(paths(['group0', 'same0'],
                              **{'group%d' % i: 'lists of %d items' % i for i in (1, 2, 3)},
                              **{'same%d' % i: 'lists of %d items' % i for i in (1, 2, 3, 4)}, failing2='lists of 2 items'),
                        search_group=SEARCH, search_same=SEARCH)}]}
PROPS['C15'] = {
    'level': 'other',
    'units': [{
        'harness': 'C15.cpp',
        'sources': [STATUS],
        'entries': dict(paths(['pack0'], **{'pack%d' % i: 'lists of %d items' % i for i in (1, 2, 3, 4, 6)}),
                        search_small=SEARCH, search_large=SEARCH)}]}

PROPS['C16'] = {
    'level': 'other',
    'units': [{
        'harness': 'C16.cpp',
        'sources': [S + 'utils/bloom_filter64.cpp', S + 'memory/bytes.cpp', STATUS],
        'entries': dict(bit_set={}, add1={'bound': 'one hash function'}, add2={'bound': 'two hash functions'}, add3={'bound': 'three hash functions'},
                        exact1={'bound': 'one hash function'}, exact2={'bound': 'two hash functions'},
                        search_add=SEARCH, search_exact=SEARCH, search_sized=SEARCH)}]}

SEGS = [S + 'memory/memory_segment_utils.cpp'] + MEM
PROPS['C17'] = {
    'level': 'other',
    'units': [{
        'harness': 'C17.cpp',
        'sources': SEGS,
        'entries': dict({k + str(n): {'bound': '%d bytes' % n} for n in (0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 12) for k in ('raw', 'segment', 'whole')},
                        finish={}, spread1_5={'bound': '5 bytes in 1 segment'}, spread1_8={'bound': '8 bytes in 1 segment'},
                        spread3_6=dict(PATHS, bound='6 bytes over 3 segments'), spread2_5=dict(PATHS, bound='5 bytes over 2 segments'),
                        spread2_8=dict(PATHS, bound='8 bytes over 2 segments'),
                        search_raw=SEARCH, search_segment=SEARCH, search_whole=SEARCH, search_spread=SEARCH, search_words=SEARCH)}]}

SPAN = 'block over at most %d segments'
PROPS['C05'] = {
    'level': 'other',
    'units': [{
        'harness': 'C05.cpp',
        'sources': [IO + 'memory_segment_output_stream.cpp'] + MEM,
        'entries': dict({k: PATHS for k in ('byte', 'flag', 'short_', 'int_', 'long_')},
                        **{k + str(n): dict(PATHS, bound=SPAN % n) for k in ('raw', 'bytes', 'part') for n in (2, 3)},
                        text=dict(PATHS, bound='string over at most 3 segments'),
                        search_long=SEARCH, search_raw=SEARCH, search_bytes=SEARCH, search_part=SEARCH, search_text=SEARCH,
                        search_sequence=SEARCH)}]}

PEEL = {'opts': {'merge': False, 'peel_div': 6}}


def segs(*names):
    return {'%s%d' % (n, k): dict(PEEL, bound='%d segments' % k) for n in names for k in (1, 2, 3)}


PROPS['C06'] = {
    'level': 'other',
    'units': [{
        'harness': 'C06.cpp',
        'sources': [IO + 'memory_segment_output_stream.cpp'] + SEGS,
        'entries': dict(segs(*[a + '_' + b for a in ('get', 'set') for b in ('byte', 'short', 'int', 'long')],
                             'copy_out', 'copy_into', 'copy_in', 'stream', 'bit_get', 'bit_set', 'bit_unset'),
                        bit_set={}, bit_unset={},
                        **{'equal' + k: dict(PEEL, bound='%s and %s segments, %s bytes' % (k[0], k[1], k[3:]))
                           for k in ('11_0', '11_3', '11_9', '12_3', '21_3', '22_3', '33_2')},
                        **{'find' + k: dict(PEEL, bound='%s and %s segments, few bytes' % (k[0], k[1]))
                           for k in ('11', '11_0', '11_long', '21', '12', '22')},
                        **{'search_' + k: SEARCH for k in ['get_byte', 'get_short', 'get_int', 'get_long', 'set_byte', 'set_short', 'set_int',
                                                          'set_long', 'float', 'double', 'copy_out', 'copy_into', 'copy_in', 'stream', 'bits',
                                                          'equal', 'find']})}]}

STRS = [S + 'data/binary_string.cpp', S + 'data/binary_section.cpp', S + 'memory/memory_pool.cpp'] + SEGS
PROPS['C08'] = {
    'level': 'other',
    'units': [{
        'harness': 'C08.cpp',
        'sources': STRS,
        'entries': dict({'cmp%s_%d' % (k, n): dict(PEEL, bound='%s and %s segments, at most 3 bytes' % (k[0], k[1]))
                         for k in ('11', '12', '22') for n in range(4)},
                        cmp31=dict(PEEL, bound='3 segments and 1 segment, 2 bytes'), cmp32=dict(PEEL, bound='3 and 2 segments, 1 and 2 bytes'),
                        equal22=dict(PEEL, bound='2 segments each, 2 bytes'),
                        **{'hash' + k: dict(PEEL, bound='%s and %s segments, %s bytes' % (k[0], k[1], k[3:]))
                           for k in ('11_1', '11_4', '12_2', '12_5', '22_2')},
                        search_cmp=SEARCH, search_cmp1=SEARCH, search_hash=SEARCH)}]}

def _c09():
    e = {}
    for k, n in ((1, 0), (1, 1), (1, 3), (1, 4), (2, 0), (2, 2), (2, 3), (2, 4), (3, 3)):
        for w in ('chars', 'sub', 'flat', 'part', 'upper', 'lower'):
            if k * n > 6 and w in ('sub', 'upper', 'lower'):
                continue
            e['%s%d_%d' % (w, k, n)] = dict(PEEL, bound='%d segments, %d bytes' % (k, n))
    for t in ((1, 2, 1, 0), (1, 1, 1, 2), (1, 4, 1, 1), (1, 4, 1, 2), (2, 3, 1, 1), (1, 3, 2, 2), (2, 2, 2, 1)):
        for w in ('find', 'contains', 'ends'):
            e['%s%d_%d_%d_%d' % ((w,) + t)] = dict(PEEL, bound='%d segments with %d bytes, pattern of %d segments with %d bytes' % t)
    e.update(blank=dict(bound='at most 5 bytes'), first_byte={}, search_one=SEARCH, search_two=SEARCH, search_ascii=SEARCH)
    return e


PROPS['C09'] = {'level': 'other', 'units': [{'harness': 'C09.cpp', 'sources': STRS, 'entries': _c09()}]}
PROPS['C10'] = {
    'level': 'other',
    'units': [{
        'harness': 'C10.cpp',
        'sources': STRS,
        'entries': dict({'inline%d_%d' % (k, n): dict(PEEL, bound='%d segments' % k)
                         for k in (1, 2, 3) for n in range(8) if k < 3 or n in (1, 3, 7)},
                        **{'stored%d_%d' % (k, n): dict(PEEL, bound='%d segments, %d bytes' % (k, n))
                           for k, n in ((1, 8), (2, 1), (2, 8), (3, 3))},
                        stored_any={}, slot={}, search_inline=SEARCH, search_stored=SEARCH)}]}
PROPS['C11'] = {
    'level': 'other',
    'units': [{
        'harness': 'C11.cpp',
        'sources': [S + 'data/blob_descriptor.cpp', S + 'memory/memory_pool.cpp', S + 'io/memory_segment_output_stream.cpp'] + STREAMS + SEGS,
        'entries': dict({'roundtrip_%d' % n: dict(PATHS, bound='locations of %d bytes' % n) for n in (0, 1, 2, 7, 16)},
                        **{'bytes_%d' % n: dict(PATHS, bound='inputs of %d bytes' % n) for n in (0, 1, 4, 5, 12, 20, 21, 22, 24, 29)},
                        bytes_any={}, roundtrip_any=dict(bound='locations of at most 65000 bytes'),
                        search_roundtrip=SEARCH, search_large=SEARCH, search_bytes=SEARCH)}]}

PROPS['C25'] = {
    'level': 'proof',
    'units': [{
        'harness': 'C25.cpp',
        'sources': [S + 'format/column_stats.cpp', S + 'data/timestamp.cpp', STATUS],
        'entries': dict({n: {} for n in ['boolean', 'tinyint', 'smallint', 'integer', 'bigint', 'date', 'real', 'real64',
                                         'timestamp', 'decimal', 'nested']},
                        **{n: dict(PATHS, bound='strings of fixed small lengths') for n in
                           ['string1', 'string2', 'string012', 'string120', 'string211', 'string_long']},
                        search_strings=SEARCH, search_history=SEARCH)}]}

OUT = [S + 'memory/memory_pool.cpp', S + 'io/memory_segment_output_stream.cpp'] + STREAMS + SEGS
PROPS['C26'] = {
    'level': 'other',
    'units': [{
        'harness': 'C26.cpp',
        'sources': OUT,
        'entries': dict({n: dict(PATHS, bound=b) for n, b in [
            ('list0', 'empty list'), ('list1', '1 reference, path of 2 bytes'), ('list1_empty', '1 reference, empty path'),
            ('list2', '2 references, paths of at most 2 bytes'), ('list3', '3 references, paths of at most 2 bytes'), ('old0', 'empty list'),
            ('old1', '1 reference, path of 3 bytes'), ('old2', '2 references, paths of at most 2 bytes'), ('cut1', '1 reference, path of 2 bytes'),
            ('cut2', '2 references, empty paths')] + [('bytes%d' % n, 'inputs of %d bytes' % n) for n in (0, 1, 5, 6, 9, 32)]},
                        search_list=SEARCH, search_cut=SEARCH, search_bytes=SEARCH)}]}

PROPS['C27'] = {
    'level': 'other',
    'units': [{
        'harness': 'C27.cpp',
        'sources': [S + 'metrics/metrics_impl.cpp', STATUS],
        'entries': dict({'step%d_%d' % (n, op): dict(PATHS, bound='maps of %d entries' % n) for n in range(4) for op in range(5)},
                        **{'copies%d' % n: dict(PATHS, bound='maps of %d entries' % n) for n in range(3)},
                        history2=dict(PATHS, bound='2 operations'), text2=dict(PATHS, bound='2 operations, keys of 2 bytes'),
                        **{n: dict(PATHS, bound='at most %s and %s counters with names of one byte' % (n[-2], n[-1])) for n in
                           ['merge10', 'merge01', 'merge11', 'merge12', 'merge21', 'merge22', 'overwrite10', 'overwrite12', 'overwrite21']},
                        collect=dict(PATHS, bound='4 readers, names of one byte'), counter={},
                        search_history=SEARCH, search_text=SEARCH, search_metrics=SEARCH)}]}

PROPS['C23'] = {
    'level': 'proof',
    'units': [{
        'harness': 'C23.cpp',
        'sources': [S + 'memory/memory_pool.cpp', S + 'memory/bytes.cpp'],
        'entries': dict({'%s_%d' % (n, a): dict(PATHS) for n in ('malloc', 'resize', 'resize_other', 'resize_null') for a in (0, 8, 64, 4096)},
                        pools={}, bytes={}, bytes_text={}, bytes_allocate={}, bytes_copy={}, bytes_move={},
                        **{'compare' + n: dict(PATHS, bound='%s and %s bytes' % (n[0], n[1])) for n in ('00', '01', '11', '22', '32', '23')},
                        search_compare=SEARCH, search_history=SEARCH)}]}

PROPS['C22'] = {
    'level': 'other',
    'units': [{
        'harness': 'C22.cpp',
        'sources': [C + 'utils/partition_path_utils.cpp', STATUS],
        'shadow': ['sstream'],
        'entries': dict({n: dict(PATHS, bound=b) for n, b in [
            ('escape0', 'the empty name'), ('escape1', 'names of 1 byte'), ('escape2', 'names of 2 bytes'), ('escape3', 'names of 3 bytes'),
            ('apart11', 'names of 1 byte'), ('apart12', 'names of 1 and 2 bytes'), ('apart13', 'names of 1 and 3 bytes'), ('apart22', 'names of 2 bytes'),
            ('paths0', 'no columns'), ('paths1', '1 column, parts of 1 and 2 bytes'), ('paths2', '2 columns, parts of 1 byte'),
            ('paths3', '3 columns, parts of 1 byte'), ('paths_blank', '3 columns'), ('paths_blank_key', '1 column')]},
                        search_escape=SEARCH, search_paths=SEARCH)}]}

ROWS = [S + 'utils/roaring_bitmap32.cpp', S + 'utils/roaring_bitmap64.cpp'] + STREAMS + MEM + [S + 'memory/memory_pool.cpp']
CROARING = ['third_party/roaring_bitmap/roaring.cpp']
PROPS['C19'] = {
    'level': 'other',
    'units': [{
        'harness': 'C19.cpp',
        'sources': ROWS,
        'native_sources': CROARING,
        'shadow': ['roaring'],
        'entries': dict({'%s_%d' % (n, w): {'bound': b} for w in (32, 64) for n, b in [
            ('empty', None), ('add', 'sets over 4 arbitrary row ids'), ('add_range', 'sets over 4 adjacent row ids'), ('remove_range', 'sets over 4 adjacent row ids'),
            ('flip', 'sets over 4 adjacent row ids'), ('any_range', 'sets over 4 adjacent row ids'),
            ('add_range_far', '3 arbitrary row ids observed'), ('remove_range_far', '3 arbitrary row ids observed'), ('flip_far', '3 arbitrary row ids observed'),
            ('any_range_far', 'sets over 3 arbitrary row ids'), ('and', 'sets over 3 arbitrary row ids'), ('or', 'sets over 3 arbitrary row ids'),
            ('andnot', 'sets over 3 arbitrary row ids'), ('self', 'sets over 3 arbitrary row ids'), ('union0', 'no set'), ('union1', '1 set over 3 arbitrary row ids'),
            ('union3', '3 sets over 3 arbitrary row ids'), ('from0', 'no value'), ('from3', '3 values'), ('iterate', 'sets over 3 arbitrary row ids'),
            ('copies', 'sets over 3 arbitrary row ids'), ('stored', 'sets over 3 arbitrary row ids'), ('stream', 'sets over 2 arbitrary row ids')]},
                        widen={'bound': 'sets over 3 arbitrary row ids'}, search_history_32=dict(SEARCH, fuzz=3000), search_history_64=dict(SEARCH, fuzz=3000))}]}

ANSWERS = [S + 'file_index/file_index_result.cpp', S + 'file_index/bitmap/bitmap_index_result.cpp', S + 'file_index/file_index_reader.cpp']
PROPS['C20'] = {
    'level': 'other',
    'units': [{
        'harness': 'C20.cpp',
        'sources': ANSWERS + ROWS,
        'native_sources': CROARING,
        'shadow': ['roaring'],
        'entries': dict({'%s_%s' % (o, k): {'bound': 'bitmaps over 3 arbitrary row ids'} for o in ('and', 'or') for k in ('rr', 'rs', 'rb', 'ss', 'sb', 'bb')},
                        **{n: {'bound': 'combinations of 3 answers, bitmaps over 3 arbitrary row ids'} for n in
                           ('nest_and_or', 'nest_or_and', 'nest_and_and', 'nest_or_or', 'nest_mixed1', 'nest_mixed2')},
                        **{'broken_%s_%s' % (o, k): {'bound': 'bitmaps over 3 arbitrary row ids'} for o in ('and', 'or') for k in 'rsb'},
                        **{n: {'bound': 'lists of %s values, bitmaps over 3 arbitrary row ids' % n[5]} for n in
                           ('lists0', 'lists1_b', 'lists1_r', 'lists2_bb', 'lists2_sb', 'lists2_br', 'lists3_bbb', 'lists3_bsb', 'lists3_rbs')},
                        defaults={}, search_nest=SEARCH)}]}

GLOBALS = [S + 'global_index/global_index_result.cpp', S + 'global_index/bitmap_global_index_result.cpp',
           S + 'global_index/bitmap_vector_search_global_index_result.cpp', S + 'utils/range.cpp']
PROPS['C21'] = {
    'level': 'other',
    'units': [{
        'harness': 'C21.cpp',
        'sources': GLOBALS + OUT + ROWS,
        'native_sources': CROARING,
        'shadow': ['roaring'],
        'entries': dict({'%s2_%s%s' % (o, x, y): dict(PATHS, bound='results over 2 arbitrary row ids') for o in ('and', 'or') for x in 'bsp' for y in 'bsp'},
                        **{'%s3_%s%s' % (o, x, y): dict(PATHS, bound='results over 3 arbitrary row ids') for o in ('and', 'or') for x in 'bsp' for y in 'bsp'},
                        **{'%s_%s' % (n, k): dict(PATHS, bound='results of 2 rows') for n in ('shift_far', 'shift_next', 'shift_near', 'shift_none', 'shift_back_far', 'shift_back_next', 'shift_back_near') for k in 'bs'},
                        **{'to_ranges_any_%d' % k: dict(PATHS, bound='results over 3 arbitrary row ids') for k in range(3)},
                        **{'to_ranges_block_%d' % k: dict(PATHS, bound='results over 4 adjacent row ids') for k in range(3)},
                        **{'from_ranges%d' % k: {'bound': '%d ranges of up to 1000 rows' % k} for k in range(4)},
                        broken=dict(PATHS, bound='results over 1 row id'), shift_empty=dict(PATHS, bound='empty results'),
                        stored_b=dict(PATHS, bound='results over 3 arbitrary row ids'), stored_s=dict(PATHS, bound='results over 3 arbitrary row ids'),
                        stored_p=dict(PATHS), cut_b=dict(PATHS, bound='results over 2 arbitrary row ids'), cut_s=dict(PATHS, bound='results over 2 arbitrary row ids'),
                        header=dict(PATHS, bound='headers of another version or with a negative bitmap length'), search_history=SEARCH)}]}

HOOKS = [S + 'factories/io_hook.cpp', S + 'factories/singleton.cpp']
CREATOR = [S + 'factories/factory_creator.cpp']
PROPS['C28'] = {
    'level': 'other',
    'units': [{
        'harness': 'C28.cpp',
        'sources': HOOKS + [STATUS],
        'native_sources': CREATOR,
        'covers': ['src/paimon/fs/local/local_file.cpp'],
        'entries': dict({'%s%d' % (o, k): dict(PATHS, bound='transfers answered by up to %d system calls, any length' % k)
                         for o in ('read', 'read_at', 'write') for k in (1, 2, 8)},
                        too_long=dict(PATHS), not_open=dict(PATHS), closed=dict(PATHS), open_fails=dict(PATHS), others=dict(PATHS),
                        search_read=SEARCH, search_read_at=SEARCH, search_write=SEARCH)}]}

PROPS['C18'] = {
    'level': 'other',
    'units': [{
        'harness': 'C18.cpp',
        'sources': [S + 'file_index/bsi/bit_slice_index_roaring_bitmap.cpp'] + OUT + ROWS,
        'native_sources': CROARING,
        'shadow': ['roaring'],
        'entries': dict({'%s_%d' % (o, s): {'bound': '2 rows with any values, slices given'} for s in (0, 32, 48)
                         for o in ('equal', 'less', 'less_or_equal', 'greater', 'greater_or_equal', 'differ')},
                        outside={'bound': '2 rows with any values in a range of 2 bits, slices given'},
                        **{'built%d' % s: dict(PATHS, bound='%d rows with values in a range of %d bits' % (2 if s < 3 else 1, s)) for s in range(4)},
                        **{'stored%d' % s: dict(PATHS, bound='%d rows with values in a range of %d bits' % (2 if s < 2 else 1, s)) for s in range(4)},
                        refused=dict(PATHS, bound='2 rows with values in a range of 1 bit'), ranges=dict(PATHS), empty=dict(PATHS), header=dict(PATHS, bound='an empty row set; no slice, a negative number or more than 64 slices'),
                        search_cut=SEARCH, search_table=SEARCH)}]}
