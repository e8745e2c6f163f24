// Bloom filter: an added hash is never denied, adding touches exactly the bits that testing reads.
#include "paimon/common/utils/bloom_filter64.h"
#include "segments.h"
using namespace paimon;
struct Filter {
    DvPool pool;
    std::shared_ptr<Bytes> bytes;
    char* old;
    uint64_t n, off;
    explicit Filter(uint64_t max) {
        n = dv_len("n", max);
        off = dv_len("off", max);
        dv_assume(off < n);
        bytes = DvBytes("bits", n, &pool, &old);
    }
    BloomFilter64 Make(uint64_t k) {
        return BloomFilter64(static_cast<int32_t>(k), std::make_unique<BloomFilter64::BitSet>(bytes, static_cast<int32_t>(off)));
    }
};
// (n - off) * 8 bits fit a 32-bit signed number
constexpr uint64_t kMax = 0x0fffffff;
DV_ENTRY(bit_set) {
    Filter f(kMax);
    BloomFilter64::BitSet b(f.bytes, static_cast<int32_t>(f.off));
    uint64_t bits = (f.n - f.off) * 8;
    dv_assert(b.BitSize() == static_cast<int32_t>(bits), "number of bits");
    uint64_t i = dv_len("i", bits - 1), j = dv_len("j", bits - 1);
    dv_assume(i < bits && j < bits);
    bool was = (f.old[f.off + j / 8] >> (j % 8)) & 1;
    dv_assert(b.Get(static_cast<int32_t>(j)) == was, "get reads bit j of the bytes");
    b.Set(static_cast<int32_t>(i));
    dv_assert(b.Get(static_cast<int32_t>(j)) == (was || i == j), "set adds exactly that bit");
    const char* d = f.bytes->data();
    DV_FORALL(k, f.n) {
        if (k != f.off + i / 8) dv_assert(d[k] == f.old[k], "other bytes unchanged");
    }
    dv_cover("set");
}
static void Add(uint64_t k, uint64_t max) {
    Filter f(max);
    BloomFilter64 b = f.Make(k);
    dv_assert(b.GetNumHashFunctions() == static_cast<int32_t>(k), "number of hash functions");
    int64_t h = dv_i64("h"), g = dv_i64("g");
    bool known = b.TestHash(g);
    b.AddHash(h);
    dv_assert(b.TestHash(h), "an added hash is found");
    if (known) dv_assert(b.TestHash(g), "a hash found before is still found");
    const char* d = f.bytes->data();
    DV_FORALL(i, f.n) {
        if (i < f.off) dv_assert(d[i] == f.old[i], "bytes in front of the filter unchanged");
        dv_assert((d[i] & f.old[i]) == f.old[i], "no bit is cleared");
    }
    // the bytes carried to another filter
    DvPool pool;
    auto copy = std::make_shared<Bytes>(f.n - f.off, &pool);
    memcpy(copy->data(), f.bytes->data() + f.off, f.n - f.off);
    BloomFilter64 c(static_cast<int32_t>(k), std::make_unique<BloomFilter64::BitSet>(copy, 0));
    dv_assert(c.TestHash(h), "found after the bits were written out and read back");
    dv_cover("added");
}
DV_ENTRY(add1) { Add(1, kMax); }
DV_ENTRY(add2) { Add(2, kMax); }
DV_ENTRY(add3) { Add(3, kMax); }
DV_ENTRY(search_add) { Add(1 + dv_len("k", 30), 400); }
// no other bits are set: without any one of the bits an addition set, the hash is not found
static void Exact(uint64_t k, uint64_t max) {
    DvPool pool;
    uint64_t n = dv_len("n", max);
    dv_assume(n > 0);
    auto bytes = std::make_shared<Bytes>(n, &pool);
    memset(bytes->data(), 0, n);
    auto one = std::make_shared<Bytes>(n, &pool);
    BloomFilter64 b(static_cast<int32_t>(k), std::make_unique<BloomFilter64::BitSet>(bytes, 0));
    int64_t h = dv_i64("h");
    b.AddHash(h);
    uint64_t j = dv_len("j", n * 8 - 1);
    dv_assume(j < n * 8);
#ifdef DV_NATIVE
    for (j = 0; j < n * 8; j++) {
#endif
        if ((bytes->data()[j / 8] >> (j % 8)) & 1) {
            memcpy(one->data(), bytes->data(), n);
            one->data()[j / 8] = static_cast<char>(one->data()[j / 8] & ~(1 << (j % 8)));
            BloomFilter64 c(static_cast<int32_t>(k), std::make_unique<BloomFilter64::BitSet>(one, 0));
            dv_assert(!c.TestHash(h), "every bit set is needed");
            dv_cover("needed");
        }
#ifdef DV_NATIVE
    }
#endif
}
DV_ENTRY(exact1) { Exact(1, kMax); }
DV_ENTRY(exact2) { Exact(2, kMax); }
DV_ENTRY(search_exact) { Exact(1 + dv_len("k", 12), 60); }
#ifdef DV_NATIVE
DV_ENTRY(search_sized) {
    auto pool = std::make_shared<DvPool>();
    int64_t items = 1 + static_cast<int64_t>(dv_len("items", 3000));
    double fpp = static_cast<double>(1 + dv_len("fpp", 997)) / 1000;
    BloomFilter64 b(items, fpp, pool);
    dv_assert(b.GetNumHashFunctions() >= 1, "at least one hash function");
    uint64_t n = dv_len("n", 200);
    std::vector<int64_t> v;
    for (uint64_t i = 0; i < n; i++) {
        v.push_back(dv_i64("h"));
        b.AddHash(v.back());
        dv_assert(b.TestHash(v.back()), "an added hash is found");
    }
    for (int64_t h : v) dv_assert(b.TestHash(h), "all added hashes are found");
    int32_t bits = b.GetBitSet().BitSize();
    dv_assert(bits > 0 && bits % 8 == 0, "whole bytes");
    DvPool p2;
    auto copy = std::make_shared<Bytes>(bits / 8, &p2);
    memset(copy->data(), 0, bits / 8);
    for (int32_t i = 0; i < bits; i++)
        if (b.GetBitSet().Get(i)) copy->data()[i / 8] = static_cast<char>(copy->data()[i / 8] | (1 << (i % 8)));
    BloomFilter64 c(b.GetNumHashFunctions(), std::make_unique<BloomFilter64::BitSet>(copy, 0));
    for (int64_t h : v) dv_assert(c.TestHash(h), "found after the bits were written out and read back");
    // a filter with room answers mostly no for values never added
    if (fpp <= 0.01 && n <= static_cast<uint64_t>(items) && items >= 100) {
        int wrong = 0;
        for (int i = 0; i < 400; i++) {
            uint64_t x = static_cast<uint64_t>(i + 1) * 0x9E3779B97F4A7C15ull;
            x = (x ^ (x >> 31)) * 0xBF58476D1CE4E5B9ull;
            wrong += b.TestHash(static_cast<int64_t>(x ^ (x >> 29)));
        }
        dv_assert(wrong < 200, "the filter filters");
    }
}
#endif
