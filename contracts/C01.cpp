// Delta-varint compression: lossless, rejects damaged input.
#include "dv.h"
#include "paimon/common/utils/delta_varint_compressor.h"
using namespace paimon;
constexpr uint64_t kBytes = 12;

static void RoundTrip(uint64_t n) {
    std::vector<int64_t> v = dv_vec<int64_t>("v", n);
    std::vector<char> enc = DeltaVarintCompressor::Compress(v);
    auto r = DeltaVarintCompressor::Decompress(enc);
    dv_assert(r.ok(), "compressed data decompresses");
    const std::vector<int64_t>& d = r.value();
    dv_assert(d.size() == n, "same number of values");
    DV_FORALL(i, n) { dv_assert(d[i] == v[i], "same values in order"); }
    dv_cover("round trip done");
}
DV_ENTRY(roundtrip0) { RoundTrip(0); }
DV_ENTRY(roundtrip1) { RoundTrip(1); }
DV_ENTRY(roundtrip2) { RoundTrip(2); }
DV_ENTRY(roundtrip3) { RoundTrip(3); }
DV_ENTRY(search_roundtrip) { RoundTrip(dv_len("n", 1000)); }

// Reference decoder: value of a single varint, or failure.
static bool RefDecode(const std::vector<char>& b, std::vector<int64_t>* out) {
    uint64_t pos = 0;
    int64_t cur = 0;
    bool first = true;
    while (pos < b.size()) {
        uint64_t v = 0;
        int shift = 0;
        for (;;) {
            if (pos >= b.size()) return false;
            uint8_t x = static_cast<uint8_t>(b[pos++]);
            v |= static_cast<uint64_t>(x & 0x7f) << shift;
            if (!(x & 0x80)) break;
            shift += 7;
            if (shift > 63) return false;
        }
        int64_t d = static_cast<int64_t>((v >> 1) ^ (~(v & 1) + 1));
        cur = first ? d : static_cast<int64_t>(static_cast<uint64_t>(cur) + static_cast<uint64_t>(d));
        first = false;
        out->push_back(cur);
    }
    return true;
}
static void Damaged(uint64_t n) {
    std::vector<char> b = dv_vec<char>("b", n);
    auto r = DeltaVarintCompressor::Decompress(b);
    std::vector<int64_t> want;
    bool ok = RefDecode(b, &want);
    dv_assert(r.ok() == ok, "accepts exactly well-formed input");
    if (ok) {
        const std::vector<int64_t>& d = r.value();
        dv_assert(d.size() == want.size(), "as many values as encoded");
        for (uint64_t i = 0; i < want.size(); i++) dv_assert(d[i] == want[i], "decoded value");
        dv_cover("accepted");
    } else {
        dv_cover("rejected");
    }
}
DV_ENTRY(damaged1) { Damaged(1); }
DV_ENTRY(damaged3) { Damaged(3); }
DV_ENTRY(search_damaged) { Damaged(dv_len("n", 100)); }
// one number in an encoding of any length, cut anywhere
DV_ENTRY(damaged_long) {
    std::vector<char> b = dv_vec<char>("b", kBytes);
    for (uint64_t i = 0; i + 2 < kBytes; i++) dv_assume(b[i] & 0x80);
    auto r = DeltaVarintCompressor::Decompress(b);
    std::vector<int64_t> want;
    bool ok = RefDecode(b, &want);
    dv_assert(r.ok() == ok, "accepts exactly well-formed input");
    dv_cover("long input");
}
