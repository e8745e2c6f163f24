"""Extraction: compile the current sources of /repo together with a contract harness to LLVM IR."""
import hashlib
import os
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

REPO = '/repo'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LLVM = '/usr/lib/llvm-18/bin/'
INC = ['-I', REPO + '/src', '-I', REPO + '/include', '-I', REPO + '/third_party/roaring_bitmap',
       '-I', REPO + '/third_party/xxhash', '-I', VERIF + '/dv/rt', '-I', VERIF + '/contracts']
DEF = ['-DPAIMON_ENABLE_ORC', '-DPAIMON_ENABLE_AVRO', '-DSNAPPY_CODEC_AVAILABLE', '-DZSTD_CODEC_AVAILABLE',
       '-DRAPIDJSON_HAS_STDSTRING']
BASE = ['-std=c++17', '-w', '-fno-access-control'] + DEF + INC

# the sources of the library as it is built here; linked when a native build lacks a symbol
_ALL = '''
common/data/binary_section.cpp
common/data/binary_string.cpp
common/data/blob_descriptor.cpp
common/data/timestamp.cpp
common/defs.cpp
common/executor/executor.cpp
common/factories/factory_creator.cpp
common/factories/io_hook.cpp
common/factories/singleton.cpp
common/file_index/bitmap/bitmap_file_index_meta_v1.cpp
common/file_index/bitmap/bitmap_index_result.cpp
common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp
common/file_index/file_index_reader.cpp
common/file_index/file_index_result.cpp
common/file_index/file_indexer_factory.cpp
common/format/column_stats.cpp
common/format/file_format_factory.cpp
common/fs/file_system_factory.cpp
common/fs/resolving_file_system.cpp
common/global_index/bitmap_global_index_result.cpp
common/global_index/bitmap_vector_search_global_index_result.cpp
common/global_index/global_index_result.cpp
common/global_index/global_indexer_factory.cpp
common/io/buffered_input_stream.cpp
common/io/byte_array_input_stream.cpp
common/io/data_input_stream.cpp
common/io/data_output_stream.cpp
common/io/memory_segment_output_stream.cpp
common/io/offset_input_stream.cpp
common/memory/bytes.cpp
common/memory/memory_pool.cpp
common/memory/memory_segment.cpp
common/memory/memory_segment_utils.cpp
common/metrics/metrics_impl.cpp
common/types/row_kind.cpp
common/utils/bloom_filter64.cpp
common/utils/delta_varint_compressor.cpp
common/utils/range.cpp
common/utils/roaring_bitmap32.cpp
common/utils/roaring_bitmap64.cpp
common/utils/status.cpp
core/catalog/identifier.cpp
core/manifest/file_kind.cpp
core/manifest/file_source.cpp
core/operation/commit_context.cpp
core/operation/scan_context.cpp
core/table/source/plan_impl.cpp
core/table/source/startup_mode.cpp
core/utils/partition_path_utils.cpp
format/avro/avro_file_format_factory.cpp
fs/local/local_file.cpp
fs/local/local_file_system_factory.cpp
'''.split()
ALL = ['src/paimon/' + x for x in _ALL if os.path.exists(REPO + '/src/paimon/' + x)]
ALL += ['third_party/roaring_bitmap/roaring.cpp', 'third_party/xxhash/xxhash.c']


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    if p.returncode:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout[-4000:])
    return p.stdout


def entries_of(cpp):
    return re.findall(r'^DV_ENTRY\((\w+)\)', open(cpp).read(), re.M)


def extract(work, harness, sources, entries, defs=(), shadow=()):
    """-> path of the linked bitcode; shadow: trusted library models that replace headers (see dv/shadow)"""
    os.makedirs(work, exist_ok=True)

    def comp(src):
        out = os.path.join(work, hashlib.md5(src.encode()).hexdigest()[:10] + '.bc')
        inc = [x for d in shadow for x in ('-I', VERIF + '/dv/shadow/' + d)]
        run(['clang++'] + inc + BASE + list(defs) + ['-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only',
            '-D_GLIBCXX_ASSERTIONS', '-fno-threadsafe-statics', '-c', '-emit-llvm', src, '-o', out])
        return out
    files = [harness, VERIF + '/dv/rt/rt.cpp'] + [s if s.startswith('/') else REPO + '/' + s for s in dict.fromkeys(sources)]
    with ThreadPoolExecutor(8) as ex:
        bcs = list(ex.map(comp, files))
    link = os.path.join(work, 'all.bc')
    run([LLVM + 'llvm-link'] + bcs + ['-o', link])
    out = os.path.join(work, 'dv.bc')
    api = ','.join('dv_entry_' + e for e in entries)
    run([LLVM + 'opt', '-passes=internalize,globaldce,function(sroa,simplifycfg,jump-threading,simplifycfg)',
         '-internalize-public-api-list=' + api, link, '-o', out])
    return out


def native(work, harness, sources, entries, defs=()):
    os.makedirs(work, exist_ok=True)
    tab = os.path.join(work, 'tab.cpp')
    with open(tab, 'w') as f:
        f.write('struct Entry{const char*name;void(*fn)();};\nextern "C"{\n')
        for e in entries:
            f.write('void dv_entry_%s();\n' % e)
        f.write('}\nextern Entry dv_entries[];\nEntry dv_entries[]={%s{0,0}};\n' %
                ''.join('{"%s",dv_entry_%s},' % (e, e) for e in entries))
    files = [harness, VERIF + '/dv/rt/dv_native.cpp', tab] + [s if s.startswith('/') else REPO + '/' + s for s in dict.fromkeys(sources)]

    def comp(src):
        out = os.path.join(work, 'n' + hashlib.md5(src.encode()).hexdigest()[:10] + '.o')
        run(['clang++'] + BASE + list(defs) + ['-DDV_NATIVE', '-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer',
             '-ftrivial-auto-var-init=pattern',
             '-D_GLIBCXX_ASSERTIONS', '-c', src, '-o', out])
        return out
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(comp, files))
    exe = os.path.join(work, 'native')
    run(['clang++', '-fsanitize=address'] + objs + ['-o', exe, '-lfmt', '-ltbb', '-lpthread'])
    return exe
