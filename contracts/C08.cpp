// Order, equality and hash of binary strings against the unsigned order of their bytes.
#include "text.h"
using namespace paimon;
constexpr uint64_t kMax = 0x07ffffff;
static int Sign(int64_t x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }
static void Compare(uint64_t k1, uint64_t k2, uint64_t n1, uint64_t n2, uint64_t max) {
    DvPool pool;
    DvText a, b;
    a.Any("p", "ss", "ls", "o1", k1, n1, max, &pool);
    b.Any("q", "ss2", "ls2", "o2", k2, n2, max, &pool);
    uint64_t m = n1 < n2 ? n1 : n2;
#ifdef DV_NATIVE
    // strings with a common beginning
    uint64_t same = dv_len("same", m);
    if (same) memcpy(b.text, a.text, same);
    b.Build(&pool);
#endif
    int want = n1 < n2 ? -1 : n1 > n2 ? 1 : 0;
    for (uint64_t i = m; i-- > 0;) {
        uint8_t x = static_cast<uint8_t>(a.text[i]), y = static_cast<uint8_t>(b.text[i]);
        want = x < y ? -1 : x > y ? 1 : want;
    }
    a.Cases();
    b.Cases();
    BinaryString s = a.Str(), t = b.Str();
    dv_assert(Sign(s.CompareTo(t)) == want, "sign of the unsigned order");
    dv_cover("compared");
    if (k1 + k2 > 3 && max == kMax) return;
    dv_assert(Sign(t.CompareTo(s)) == -want, "opposite sign when swapped");
    dv_assert((s == t) == (want == 0), "equal exactly when the bytes agree");
    dv_assert((s < t) == (want < 0), "less exactly when smaller");
    dv_assert(static_cast<const BinarySection&>(s).BinarySection::operator==(t) == (want == 0), "sections equal exactly when the bytes agree");
}
static void Hash(uint64_t k1, uint64_t k2, uint64_t n, uint64_t max) {
    DvPool pool;
    DvText a, b;
    a.Any("p", "ss", "ls", "o1", k1, n, max, &pool);
    b.Any("q", "ss2", "ls2", "o2", k2, n, max, &pool);
    for (uint64_t i = 0; i < n; i++) b.text[i] = a.text[i];
    b.Build(&pool);
    a.Cases();
    b.Cases();
    dv_assert(a.Str().HashCode() == b.Str().HashCode(), "equal strings have equal hash codes");
    dv_cover("hash");
}
#define CASES(k1, k2)                                                                   \
    DV_ENTRY(cmp##k1##k2##_0) { Compare(k1, k2, 0, 2, kMax); }                   \
    DV_ENTRY(cmp##k1##k2##_1) { Compare(k1, k2, 1, 1, kMax); }                   \
    DV_ENTRY(cmp##k1##k2##_2) { Compare(k1, k2, 2, 2, kMax); }                   \
    DV_ENTRY(cmp##k1##k2##_3) { Compare(k1, k2, 3, 2, kMax); }
CASES(1, 1)
CASES(1, 2)
CASES(2, 2)
DV_ENTRY(cmp31) { Compare(3, 1, 2, 2, kMax); }
DV_ENTRY(cmp32) { Compare(3, 2, 1, 2, kMax); }
DV_ENTRY(equal22) {
    DvPool pool;
    DvText a, b;
    a.Any("p", "ss", "ls", "o1", 2, 2, kMax, &pool);
    b.Any("q", "ss2", "ls2", "o2", 2, 2, kMax, &pool);
    a.Cases();
    b.Cases();
    bool same = (a.text[0] == b.text[0]) & (a.text[1] == b.text[1]);
    BinaryString s = a.Str(), t = b.Str();
    dv_assert(static_cast<const BinarySection&>(s).BinarySection::operator==(t) == same, "sections equal exactly when the bytes agree");
    dv_cover("compared");
}
DV_ENTRY(hash11_1) { Hash(1, 1, 1, kMax); }
DV_ENTRY(hash11_4) { Hash(1, 1, 4, kMax); }
DV_ENTRY(hash12_2) { Hash(1, 2, 2, kMax); }
DV_ENTRY(hash12_5) { Hash(1, 2, 5, kMax); }
DV_ENTRY(hash22_2) { Hash(2, 2, 2, kMax); }
static void Search(uint64_t k, uint64_t max) {
    uint64_t n1 = dv_len("n1", 24), n2 = dv_bool("equal") ? n1 : dv_len("n2", 24);
    Compare(1 + dv_len("k1", k), 1 + dv_len("k2", k), n1, n2, max);
}
DV_ENTRY(search_cmp) { Search(5, 12); }
DV_ENTRY(search_cmp1) { Search(0, 40); }
DV_ENTRY(search_hash) { Hash(1 + dv_len("k1", 5), 1 + dv_len("k2", 5), dv_len("n", 24), 12); }
