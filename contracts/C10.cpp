// Variable-length fields of rows: inlined or in the variable part, read back as stored.
#include "text.h"
using namespace paimon;
constexpr uint64_t kMax = 0x07ffffff;
// The writer's format: up to seven bytes inlined with the mark and length in the highest byte of
// the slot, longer ones as offset from the row start and length.
static int64_t InlineSlot(const char* p, uint64_t n) {
    uint64_t v = (0x80ULL | n) << 56;
    for (uint64_t i = 0; i < n; i++) v |= static_cast<uint64_t>(static_cast<uint8_t>(p[i])) << (8 * i);
    return static_cast<int64_t>(v);
}
static void Inlined(uint64_t k, uint64_t n, uint64_t max = kMax) {
    DvPool pool;
    DvSegments row;
    row.Make("row", "ss", "ls", k, max, &pool);
    char* p = static_cast<char*>(dv_alloc("p", 8, 1));
    uint64_t field = dv_len("field", k * max), base = dv_len("base", k * max);
    dv_assume(row.total >= 8 && field <= row.total - 8 && base <= field);
    int64_t slot = InlineSlot(p, n);
    for (uint64_t i = 0; i < 8; i++) row.flat[field + i] = static_cast<char>(static_cast<uint64_t>(slot) >> (8 * i));
    row.Build(&pool);
    for (uint64_t b = 1; b < k; b++)
        for (uint64_t c = 0; c <= n; c++)
            if (field + c == b * row.ss) break;
    auto r = BinarySection::ReadBinary(row.v, static_cast<int32_t>(base), static_cast<int32_t>(field), slot, &pool);
    dv_assert(r->size() == n, "length of an inlined field");
    for (uint64_t i = 0; i < n; i++) dv_assert(r->data()[i] == p[i], "bytes of an inlined field");
    dv_cover("inlined");
}
// the field of n bytes lies somewhere in the variable part
static void Stored(uint64_t k, uint64_t n, uint64_t max = kMax) {
    DvPool pool;
    DvText t;
    t.Any("row", "ss", "ls", "off", k, n, max, &pool);
    uint64_t base = dv_len("base", k * max), field = dv_len("field", k * max);
    dv_assume(base <= t.off);
    t.Cases();
    int64_t slot = static_cast<int64_t>((t.off - base) << 32 | n);
    auto r = BinarySection::ReadBinary(t.v, static_cast<int32_t>(base), static_cast<int32_t>(field), slot, &pool);
    dv_assert(r->size() == n, "length of a field in the variable part");
    for (uint64_t i = 0; i < n; i++) dv_assert(r->data()[i] == t.text[i], "bytes of a field in the variable part");
    dv_cover("stored");
}
// one segment, every length
DV_ENTRY(stored_any) {
    DvPool pool;
    DvSegments row;
    row.Make("row", "ss", "ls", 1, kMax, &pool);
    uint64_t off = dv_len("off", kMax), n = dv_len("n", kMax), base = dv_len("base", kMax), field = dv_len("field", kMax);
    dv_assume(off <= row.total && n <= row.total - off && base <= off);
    int64_t slot = static_cast<int64_t>((off - base) << 32 | n);
    auto r = BinarySection::ReadBinary(row.v, static_cast<int32_t>(base), static_cast<int32_t>(field), slot, &pool);
    dv_assert(r->size() == n, "length of a field in the variable part");
    DV_FORALL(i, n) { dv_assert(r->data()[i] == row.flat[off + i], "bytes of a field in the variable part"); }
    dv_cover("stored");
}
// every slot value has one reading
DV_ENTRY(slot) {
    DvPool pool;
    DvSegments row;
    row.Make("row", "ss", "ls", 1, kMax, &pool);
    int64_t slot = static_cast<int64_t>(dv_u64("slot"));
    uint64_t base = dv_len("base", kMax), field = dv_len("field", kMax);
    bool in = slot < 0;
    uint64_t n = in ? (static_cast<uint64_t>(slot) >> 56) & 0x7f : static_cast<uint32_t>(slot);
    uint64_t at = in ? field : base + (static_cast<uint64_t>(slot) >> 32);
#ifdef DV_NATIVE
    if (n > 64 || at > 64 || at + n > row.total) {
        // make the slot fit the row
        base %= 8;
        field = row.total > 8 ? field % (row.total - 7) : 0;
        uint64_t off = row.total > base ? (static_cast<uint64_t>(slot) >> 32) % (row.total - base) : 0;
        n = in ? n % 8 : row.total > base + off ? n % (row.total - base - off) : 0;
        at = in ? field : base + off;
        slot = in ? static_cast<int64_t>((0x80ULL | n) << 56 | (static_cast<uint64_t>(slot) & 0xffffffffffffffULL)) : static_cast<int64_t>(off << 32 | n);
    }
#endif
    dv_assume(at <= row.total && n <= row.total - at);
    auto r = BinarySection::ReadBinary(row.v, static_cast<int32_t>(base), static_cast<int32_t>(field), slot, &pool);
    dv_assert(r->size() == n, "length by the mark bit");
    DV_FORALL(i, n) { dv_assert(r->data()[i] == row.flat[at + i], "bytes by the mark bit"); }
    if (in) dv_cover("inline");
    else dv_cover("offset");
}
#define IN(k, n) DV_ENTRY(inline##k##_##n) { Inlined(k, n); }
IN(1, 0) IN(1, 1) IN(1, 2) IN(1, 3) IN(1, 4) IN(1, 5) IN(1, 6) IN(1, 7)
IN(2, 0) IN(2, 1) IN(2, 2) IN(2, 3) IN(2, 4) IN(2, 5) IN(2, 6) IN(2, 7)
IN(3, 1) IN(3, 3) IN(3, 7)
#define ST(k, n) DV_ENTRY(stored##k##_##n) { Stored(k, n); }
ST(1, 8) ST(2, 1) ST(2, 8) ST(3, 3)
DV_ENTRY(search_inline) { Inlined(1 + dv_len("k", 5), dv_len("n", 7), 12); }
DV_ENTRY(search_stored) { Stored(1 + dv_len("k", 5), dv_len("n", 30), 12); }
