// Lists of deletion-file references in a split.
#include "paimon/core/table/source/deletion_file.h"
#include "paimon/io/byte_array_input_stream.h"
#include "segments.h"
using namespace paimon;
using Files = std::vector<std::optional<DeletionFile>>;
constexpr uint64_t kList = 4;
struct Ref {
    bool present = false;
    std::string path;
    int64_t offset = 0, length = 0;
    std::optional<int64_t> rows;
};
static Ref Arbitrary(uint64_t path_len) {
    Ref r;
    r.present = dv_bool("present");
    char* p = static_cast<char*>(dv_alloc("path", path_len, 1));
    r.path = std::string(p, path_len);
    r.offset = dv_i64("offset");
    r.length = dv_i64("length");
    int64_t rows = dv_in("rows", 0, INT64_MAX);
    if (dv_bool("known")) r.rows = rows;
    return r;
}
static void Write(const Ref* refs, uint64_t n, MemorySegmentOutputStream* out) {
    Files files;
    for (uint64_t i = 0; i < n; i++) {
        if (refs[i].present) files.emplace_back(DeletionFile(refs[i].path, refs[i].offset, refs[i].length, refs[i].rows));
        else files.emplace_back(std::nullopt);
    }
    DeletionFile::SerializeList(files, out);
}
// the layout before row counts were stored
static void WriteOld(const Ref* refs, uint64_t n, MemorySegmentOutputStream* out) {
    out->WriteValue<char>(n ? 1 : 0);
    if (n) out->WriteValue<int32_t>(static_cast<int32_t>(n));
    for (uint64_t i = 0; i < n; i++) {
        out->WriteValue<char>(refs[i].present ? 1 : 0);
        if (!refs[i].present) continue;
        out->WriteString(refs[i].path);
        out->WriteValue<int64_t>(refs[i].offset);
        out->WriteValue<int64_t>(refs[i].length);
    }
}
static Result<Files> Read(const char* p, uint64_t n, int32_t version, int64_t* end) {
    auto stream = std::make_shared<ByteArrayInputStream>(p, n);
    DataInputStream in(stream);
    auto r = DeletionFile::DeserializeList(&in, version);
    *end = in.GetPos().value();
    return r;
}
static void Same(const Result<Files>& got, const Ref* refs, uint64_t n, bool rows) {
    dv_assert(got.ok(), "own bytes are accepted");
    if (!got.ok()) return;
    const Files& f = got.value();
    dv_assert(f.size() == n, "as many references");
    if (f.size() != n) return;
    for (uint64_t i = 0; i < n; i++) {
        dv_assert(f[i].has_value() == refs[i].present, "absent ones are absent");
        if (!f[i] || !refs[i].present) continue;
        dv_assert(f[i]->path == refs[i].path, "same path");
        dv_assert(f[i]->offset == refs[i].offset && f[i]->length == refs[i].length, "same offset and length");
        if (rows) dv_assert(f[i]->cardinality == refs[i].rows, "same row count, unknown stays unknown");
        else dv_assert(!f[i]->cardinality.has_value(), "older layout has no row counts");
    }
}
static void RoundTrip(uint64_t n, uint64_t path_len, bool old) {
    auto pool = std::make_shared<DvPool>();
    Ref refs[kList];
    for (uint64_t i = 0; i < n; i++) refs[i] = Arbitrary(path_len + i);
    MemorySegmentOutputStream out(MemorySegmentOutputStream::DEFAULT_SEGMENT_SIZE, pool);
    if (old) WriteOld(refs, n, &out);
    else Write(refs, n, &out);
    int32_t version = static_cast<int32_t>(old ? dv_in("version", 1, 3) : dv_in("version", 4, INT32_MAX));
    auto bytes = MemorySegmentUtils::CopyToBytes(out.Segments(), 0, out.CurrentSize(), pool.get());
    int64_t end = 0;
    auto got = Read(bytes->data(), bytes->size(), version, &end);
    Same(got, refs, n, !old);
    dv_assert(end == static_cast<int64_t>(bytes->size()), "the whole encoding is read");
    dv_cover("round trip");
}
// encodings cut short, and references of versions nobody wrote
static void Cut(uint64_t n, uint64_t path_len) {
    auto pool = std::make_shared<DvPool>();
    Ref refs[kList];
    for (uint64_t i = 0; i < n; i++) refs[i] = Arbitrary(path_len);
    bool old = dv_bool("old");
    MemorySegmentOutputStream out(MemorySegmentOutputStream::DEFAULT_SEGMENT_SIZE, pool);
    if (old) WriteOld(refs, n, &out);
    else Write(refs, n, &out);
    auto bytes = MemorySegmentUtils::CopyToBytes(out.Segments(), 0, out.CurrentSize(), pool.get());
    int32_t version = old ? 3 : 4;
    int64_t end = 0;
    if (dv_bool("unsupported")) {
        version = static_cast<int32_t>(dv_in("version", INT32_MIN, 0));
        dv_assert(!Read(bytes->data(), bytes->size(), version, &end).ok(), "unsupported version is refused");
        dv_cover("version");
        return;
    }
    uint64_t size = bytes->size();
    for (uint64_t c = 0; c < size; c++) dv_assert(!Read(bytes->data(), c, version, &end).ok(), "cut input is refused");
    dv_cover("cut");
}
// any bytes: an error or a list, never an exception or an access outside
static void Any(uint64_t n) {
    char* p = static_cast<char*>(dv_alloc("p", n, 1));
#ifdef DV_NATIVE
    if (n >= 5 && dv_bool("list")) {
        p[0] = 1;
        if (dv_bool("short"))
            for (int i = 1; i < 5; i++) p[i] = i == 4 ? static_cast<char>(dv_u8("count") % 5) : 0;
    }
#endif
    int32_t version = dv_i32("version");
    int64_t end = 0;
    auto r = Read(p, n, version, &end);
    dv_assert(end >= 0 && end <= static_cast<int64_t>(n), "reads inside the input");
    if (n == 0) dv_assert(!r.ok(), "empty input is refused");
    if (r.ok()) dv_cover("list");
    else dv_cover("refused");
}
DV_ENTRY(list0) { RoundTrip(0, 0, false); }
DV_ENTRY(list1) { RoundTrip(1, 2, false); }
DV_ENTRY(list1_empty) { RoundTrip(1, 0, false); }
DV_ENTRY(list2) { RoundTrip(2, 1, false); }
DV_ENTRY(list3) { RoundTrip(3, 0, false); }
DV_ENTRY(old0) { RoundTrip(0, 0, true); }
DV_ENTRY(old1) { RoundTrip(1, 3, true); }
DV_ENTRY(old2) { RoundTrip(2, 1, true); }
DV_ENTRY(cut1) { Cut(1, 2); }
DV_ENTRY(cut2) { Cut(2, 0); }
DV_ENTRY(bytes0) { Any(0); }
DV_ENTRY(bytes1) { Any(1); }
DV_ENTRY(bytes5) { Any(5); }
DV_ENTRY(bytes6) { Any(6); }
DV_ENTRY(bytes9) { Any(9); }
DV_ENTRY(bytes32) { Any(32); }
DV_ENTRY(search_list) { RoundTrip(dv_len("n", kList), dv_len("len", 40), dv_bool("layout")); }
DV_ENTRY(search_cut) { Cut(1 + dv_len("n", kList - 1), dv_len("len", 20)); }
DV_ENTRY(search_bytes) { Any(dv_len("n", 60)); }
