// The 32-bit row hash against the published Murmur3 function (tail bytes mixed one by one, seed 42).
#include "paimon/common/utils/murmurhash_utils.h"
#include "segments.h"
using namespace paimon;
static uint32_t Rot(uint32_t x, int r) { return (x << r) | (x >> (32 - r)); }
static uint32_t Step(uint32_t h, uint32_t k) {
    k *= 0xcc9e2d51u;
    k = Rot(k, 15);
    k *= 0x1b873593u;
    h ^= k;
    h = Rot(h, 13);
    return h * 5 + 0xe6546b64u;
}
static uint32_t Final(uint32_t h, uint32_t len) {
    h ^= len;
    h ^= h >> 16;
    h *= 0x85ebca6bu;
    h ^= h >> 13;
    h *= 0xc2b2ae35u;
    h ^= h >> 16;
    return h;
}
static uint32_t Byte(const char* p) { return static_cast<uint8_t>(*p); }
static int32_t Reference(const char* p, uint64_t n, uint32_t seed) {
    uint32_t h = seed;
    uint64_t i = 0;
    for (; i + 4 <= n; i += 4) h = Step(h, Byte(p + i) | Byte(p + i + 1) << 8 | Byte(p + i + 2) << 16 | Byte(p + i + 3) << 24);
    for (; i < n; i++) h = Step(h, static_cast<uint32_t>(static_cast<int32_t>(static_cast<int8_t>(p[i]))));
    return static_cast<int32_t>(Final(h, static_cast<uint32_t>(n)));
}
constexpr uint64_t kMax = 0x7fffffff;
static void Raw(uint64_t n, uint64_t max) {
    uint64_t size = dv_len("size", max), off = dv_len("off", max);
    dv_assume(size >= n && off <= size - n);
    char* p = static_cast<char*>(dv_alloc("p", size, 1));
    int32_t seed = dv_i32("seed");
    dv_assert(MurmurHashUtils::HashUnsafeBytes(p, static_cast<int64_t>(off), static_cast<int32_t>(n), seed) ==
                  Reference(p + off, n, static_cast<uint32_t>(seed)),
              "hash of raw bytes with a seed");
    dv_assert(MurmurHashUtils::HashUnsafeBytes(p, static_cast<int64_t>(off), static_cast<int32_t>(n)) == Reference(p + off, n, 42), "hash of raw bytes");
    if (n % 4 == 0)
        dv_assert(MurmurHashUtils::HashUnsafeBytesByWords(p, static_cast<int64_t>(off), static_cast<int32_t>(n)) == Reference(p + off, n, 42),
                  "hash of raw words");
    dv_cover("raw");
}
static void Segment(uint64_t n, uint64_t max) {
    DvPool pool;
    uint64_t size = dv_len("size", max), off = dv_len("off", max);
    dv_assume(size > 0 && size >= n && off <= size - n);
    char* p;
    MemorySegment s = MemorySegment::Wrap(DvBytes("p", size, &pool, &p));
    dv_assert(MurmurHashUtils::HashBytes(s, static_cast<int32_t>(off), static_cast<int32_t>(n)) == Reference(p + off, n, 42), "hash of a segment");
    if (n % 4 == 0)
        dv_assert(MurmurHashUtils::HashBytesByWords(s, static_cast<int32_t>(off), static_cast<int32_t>(n)) == Reference(p + off, n, 42),
                  "hash of segment words");
    dv_cover("segment");
}
static void Whole(uint64_t n) {
    DvPool pool;
    char* p;
    std::shared_ptr<Bytes> b = DvBytes("p", n, &pool, &p);
    dv_assert(MurmurHashUtils::HashBytes(b) == Reference(p, n, 42), "hash of a byte array");
    dv_assert(MurmurHashUtils::HashBytesPositive(b) == (Reference(p, n, 42) & 0x7fffffff), "without the sign");
    dv_cover("whole");
}
#define SIZES(X) X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(11) X(12)
#define X(n)                            \
    DV_ENTRY(raw##n) { Raw(n, kMax); }  \
    DV_ENTRY(segment##n) { Segment(n, kMax); } \
    DV_ENTRY(whole##n) { Whole(n); }
SIZES(X)
#undef X
DV_ENTRY(raw_any) { Raw(dv_len("n", kMax), kMax); }
DV_ENTRY(segment_any) { Segment(dv_len("n", kMax), kMax); }
DV_ENTRY(whole_any) { Whole(dv_len("n", kMax)); }
DV_ENTRY(finish) {
    uint32_t h = dv_u32("h");
    dv_assert(MurmurHashUtils::Fmix(h) == static_cast<int32_t>(Final(h, 0)), "final mix");
    dv_assert(MurmurHashUtils::DEFAULT_SEED == 42, "seed");
    dv_cover("finish");
}
// the same bytes spread over segments
static void Spread(uint64_t k, uint64_t n, bool words, uint64_t max) {
    DvPool pool;
    DvSegments g;
    g.Make("p", "ss", "ls", k, max, &pool);
    uint64_t off = dv_len("off", max);
    dv_assume(n <= g.total && off <= g.total - n);
    // one case per place where the bytes are split
    for (uint64_t b = 1; b < k; b++)
        for (uint64_t c = 1; c < n; c++)
            if (off + c == b * g.ss) break;
    int32_t o = static_cast<int32_t>(off), l = static_cast<int32_t>(n);
    if (words)
        dv_assert(MemorySegmentUtils::HashByWords(g.v, o, l, &pool) == Reference(g.flat + off, n, 42), "word hash over segments");
    else
        dv_assert(MemorySegmentUtils::Hash(g.v, o, l, &pool) == Reference(g.flat + off, n, 42), "hash over segments");
    dv_cover("spread");
}
DV_ENTRY(spread1_5) { Spread(1, 5, false, 0x0fffffff); }
DV_ENTRY(spread1_8) { Spread(1, 8, true, 0x0fffffff); }
DV_ENTRY(spread2_5) { Spread(2, 5, false, 0x0fffffff); }
DV_ENTRY(spread2_8) { Spread(2, 8, true, 0x0fffffff); }
DV_ENTRY(spread3_6) { Spread(3, 6, false, 0x07ffffff); }
DV_ENTRY(search_raw) { Raw(dv_len("n", 200), 400); }
DV_ENTRY(search_segment) { Segment(dv_len("n", 200), 400); }
DV_ENTRY(search_whole) { Whole(dv_len("n", 300)); }
DV_ENTRY(search_spread) { Spread(1 + dv_len("k", 5), dv_len("len", 60), false, 24); }
DV_ENTRY(search_words) { Spread(1 + dv_len("k", 5), dv_len("len", 15) * 4, true, 24); }
