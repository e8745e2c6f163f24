// Blob descriptors: round trip, and any bytes as input.
#include "paimon/common/data/blob_descriptor.h"
#include "segments.h"
using namespace paimon;
static int64_t Get(const char* p, int n) {
    uint64_t v = 0;
    for (int i = 0; i < n; i++) v |= static_cast<uint64_t>(static_cast<uint8_t>(p[i])) << (8 * i);
    return static_cast<int64_t>(v);
}
static bool SameText(const std::string& s, const char* p, uint64_t n) {
    bool same = s.size() == n;
    for (uint64_t i = 0; i < n && same; i++) same = s[i] == p[i];
    return same;
}
// what the bytes of a descriptor must be
static bool Wellformed(const char* p, uint64_t size, uint64_t n) {
    return size >= 21 + n && p[0] == 1 && static_cast<int32_t>(Get(p + 1, 4)) == static_cast<int64_t>(n) && Get(p + 5 + n, 8) >= 0 &&
           Get(p + 13 + n, 8) >= -1;
}
static void RoundTrip(uint64_t n) {
    auto pool = std::make_shared<DvPool>();
    char* p = static_cast<char*>(dv_alloc("p", n, 1));
    int64_t off = static_cast<int64_t>(dv_u64("off")), len = static_cast<int64_t>(dv_u64("len"));
#ifdef DV_NATIVE
    if (dv_bool("fit")) { off &= INT64_MAX; len = len < 0 ? -1 : len; }
#endif
    auto made = BlobDescriptor::Create(std::string(p, n), off, len);
    dv_assert(made.ok() == (off >= 0 && len >= -1), "only offsets from 0 and lengths from -1 are accepted");
    if (!made.ok()) {
        dv_cover("refused");
        return;
    }
    auto bytes = made.value()->Serialize(pool);
    dv_assert(bytes->size() == 21 + n, "size of the bytes");
    const char* b = bytes->data();
    dv_assert(b[0] == 1 && Get(b + 1, 4) == static_cast<int64_t>(n) && Get(b + 5 + n, 8) == off && Get(b + 13 + n, 8) == len, "fields in the bytes");
    for (uint64_t i = 0; i < n; i++) dv_assert(b[5 + i] == p[i], "location in the bytes");
    auto back = BlobDescriptor::Deserialize(b, bytes->size());
    dv_assert(back.ok(), "own bytes are accepted");
    if (!back.ok()) return;
    dv_assert(back.value()->Uri() == made.value()->Uri() && SameText(back.value()->Uri(), p, n), "same location");
    dv_assert(back.value()->Offset() == off && back.value()->Length() == len, "same offset and length");
    auto again = back.value()->Serialize(pool);
    dv_assert(again->size() == bytes->size() && again->data()[0] == b[0], "same version");
    dv_cover("round trip");
}
// any size bytes
static void Arbitrary(uint64_t size) {
    char* p = static_cast<char*>(dv_alloc("p", size, 1));
#ifdef DV_NATIVE
    if (size && dv_bool("version")) p[0] = 1;
    uint8_t kind = dv_u8("kind") % 4;
    if (size >= 5 && kind < 3) {
        uint32_t n = kind == 0 && size >= 21 ? static_cast<uint32_t>(size - 21) : kind == 1 ? static_cast<uint32_t>(dv_len("n", 40)) : dv_u32("v");
        for (int i = 0; i < 4; i++) p[1 + i] = static_cast<char>(n >> (8 * i));
        if (kind == 0 && size >= 21 && dv_bool("ok")) {
            p[12 + n] &= 0x7f;
            p[20 + n] &= 0x7f;
        }
    }
#endif
    auto r = BlobDescriptor::Deserialize(p, size);
    bool want = false;
    uint64_t m = 0;
    for (uint64_t n = 0; 21 + n <= size; n++)
        if (Wellformed(p, size, n)) {
            want = true;
            m = n;
        }
    dv_assert(r.ok() == want, "accepted exactly when the bytes are a descriptor");
    if (!r.ok()) {
        dv_cover("refused");
        return;
    }
    for (uint64_t n = 0; 21 + n <= size; n++)
        if (m == n) {
            dv_assert(SameText(r.value()->Uri(), p + 5, n), "location as in the bytes");
            dv_assert(r.value()->Offset() == Get(p + 5 + n, 8) && r.value()->Length() == Get(p + 13 + n, 8), "offset and length as in the bytes");
        }
    dv_cover("accepted");
}
// inputs of every size
DV_ENTRY(bytes_any) {
    uint64_t size = dv_len("size", 0x7fffffff);
    char* p = static_cast<char*>(dv_alloc("p", size, 1));
#ifdef DV_NATIVE
    if (size && dv_bool("version")) p[0] = 1;
    if (size >= 21 && dv_bool("fit")) {
        uint64_t n = dv_len("n", size - 21);
        for (int i = 0; i < 4; i++) p[1 + i] = static_cast<char>(n >> (8 * i));
        p[12 + n] &= 0x7f;
        p[20 + n] &= 0x7f;
    }
#endif
    auto r = BlobDescriptor::Deserialize(p, size);
    int32_t len = size < 5 ? -1 : static_cast<int32_t>(Get(p + 1, 4));
    bool fits = size >= 21 && p[0] == 1 && len >= 0 && static_cast<uint64_t>(len) <= size - 21;
    if (!fits) {
        dv_assert(!r.ok(), "refused when the fields do not fit");
        dv_cover("refused");
        return;
    }
    uint64_t n = static_cast<uint64_t>(len);
    int64_t off = Get(p + 5 + n, 8), length = Get(p + 13 + n, 8);
    dv_assert(r.ok() == (off >= 0 && length >= -1), "accepted exactly when offset and length are allowed");
    if (!r.ok()) return;
    dv_assert(r.value()->Offset() == off && r.value()->Length() == length, "offset and length as in the bytes");
    const std::string& uri = r.value()->Uri();
    dv_assert(uri.size() == n, "location as long as in the bytes");
    dv_cover("accepted");
    DV_FORALL(i, n) { dv_assert(uri[i] == p[5 + i], "location as in the bytes"); }
}
// locations of every length that stays in one segment
DV_ENTRY(roundtrip_any) {
    auto pool = std::make_shared<DvPool>();
    uint64_t n = dv_len("n", 65000);
    char* p = static_cast<char*>(dv_alloc("p", n, 1));
    int64_t off = static_cast<int64_t>(dv_u64("off")), len = static_cast<int64_t>(dv_u64("len"));
#ifdef DV_NATIVE
    if (dv_bool("fit")) { off &= INT64_MAX; len = len < 0 ? -1 : len; }
#endif
    dv_assume(off >= 0 && len >= -1);
    auto made = BlobDescriptor::Create(std::string(p, n), off, len);
    dv_assert(made.ok(), "offsets from 0 and lengths from -1 are accepted");
    auto bytes = made.value()->Serialize(pool);
    dv_assert(bytes->size() == 21 + n, "size of the bytes");
    const char* b = bytes->data();
    dv_assert(b[0] == 1 && Get(b + 1, 4) == static_cast<int64_t>(n) && Get(b + 5 + n, 8) == off && Get(b + 13 + n, 8) == len, "fields in the bytes");
    dv_cover("serialized");
    DV_FORALL(i, n) { dv_assert(b[5 + i] == p[i], "location in the bytes"); }
}
#define RT(n) DV_ENTRY(roundtrip_##n) { RoundTrip(n); }
RT(0) RT(1) RT(2) RT(7) RT(16)
#define ANY(n) DV_ENTRY(bytes_##n) { Arbitrary(n); }
ANY(0) ANY(1) ANY(4) ANY(5) ANY(12) ANY(20) ANY(21) ANY(22) ANY(24) ANY(29)
DV_ENTRY(search_roundtrip) { RoundTrip(dv_len("n", 300)); }
DV_ENTRY(search_large) { RoundTrip(65400 + dv_len("n", 400)); }
DV_ENTRY(search_bytes) { Arbitrary(dv_len("size", 80)); }
