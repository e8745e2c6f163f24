// One memory segment: values, copies, swaps and comparisons touch exactly their own bytes.
#include "segments.h"
using namespace paimon;
constexpr uint64_t kMax = 0x7fffffff;
struct Seg {
    DvPool pool;
    uint64_t n;
    char* old;
    MemorySegment s;
    Seg(const char* nn, const char* name) {
        n = dv_len(nn, kMax);
        dv_assume(n > 0);
        s = MemorySegment::Wrap(DvBytes(name, n, &pool, &old));
    }
    const char* data() { return s.GetArray()->data(); }
};
template <typename T, typename U>
static void Value(U raw) {
    Seg a("n", "a");
    T v;
    memcpy(&v, &raw, sizeof(T));
    uint64_t i = dv_len("i", kMax);
    dv_assume(a.n >= sizeof(T) && i <= a.n - sizeof(T));
    dv_assert(a.s.Size() == static_cast<int32_t>(a.n), "size");
    a.s.PutValue<T>(static_cast<int32_t>(i), v);
    T g = a.s.GetValue<T>(static_cast<int32_t>(i));
    dv_assert(memcmp(&g, &v, sizeof(T)) == 0, "get returns what was put");
    const char* d = a.data();
    DV_FORALL(j, a.n) {
        if (j >= i && j < i + sizeof(T)) {
            dv_assert(static_cast<uint8_t>(d[j]) == static_cast<uint8_t>(raw >> (8 * (j - i))), "machine byte order");
            dv_cover("own byte");
        } else {
            dv_assert(d[j] == a.old[j], "other bytes unchanged");
            dv_cover("other byte");
        }
    }
}
DV_ENTRY(value_bool) { Value<bool, uint8_t>(dv_bool("v") ? 1 : 0); }
DV_ENTRY(value_char) { Value<char, uint8_t>(dv_u8("v")); }
DV_ENTRY(value_i8) { Value<int8_t, uint8_t>(dv_u8("v")); }
DV_ENTRY(value_i16) { Value<int16_t, uint16_t>(dv_u16("v")); }
DV_ENTRY(value_i32) { Value<int32_t, uint32_t>(dv_u32("v")); }
DV_ENTRY(value_i64) { Value<int64_t, uint64_t>(dv_u64("v")); }
DV_ENTRY(value_float) { Value<float, uint32_t>(dv_u32("v")); }
DV_ENTRY(value_double) { Value<double, uint64_t>(dv_u64("v")); }
DV_ENTRY(bool_any_byte) {
    Seg a("n", "a");
    uint64_t i = dv_len("i", kMax);
    dv_assume(i < a.n);
    dv_assert(a.s.GetValue<bool>(static_cast<int32_t>(i)) == (a.old[i] != 0), "non-zero byte is true");
    dv_cover("bool");
}
DV_ENTRY(byte) {
    Seg a("n", "a");
    uint64_t i = dv_len("i", kMax);
    dv_assume(i < a.n);
    dv_assert(a.s.Get(static_cast<int32_t>(i)) == a.old[i], "get");
    char c = static_cast<char>(dv_u8("c"));
    a.s.Put(static_cast<int32_t>(i), c);
    dv_assert(a.s.Get(static_cast<int32_t>(i)) == c, "put");
    const char* d = a.data();
    DV_FORALL(j, a.n) { dv_assert(d[j] == (j == i ? c : a.old[j]), "only that byte"); }
    dv_cover("byte");
}
struct Range2 {
    uint64_t i, j, len;
    Range2(uint64_t n, uint64_t m, uint64_t cap) {
        i = dv_len("i", kMax);
        j = dv_len("j", kMax);
        len = dv_len("len", cap);
        dv_assume(i <= n && len <= n - i && j <= m && len <= m - j);
    }
};
// the destination holds the copied range and is otherwise as before; the source is as before
static void Copied(const char* dst, const char* dold, uint64_t dn, uint64_t at, const char* src, const char* sold, uint64_t sn,
                   uint64_t from, uint64_t len) {
    DV_FORALL(k, dn) {
        if (k >= at && k - at < len) dv_assert(dst[k] == sold[from + (k - at)], "copied byte");
        else dv_assert(dst[k] == dold[k], "other bytes of the target unchanged");
    }
    DV_FORALL(k2, sn) { dv_assert(src[k2] == sold[k2], "source unchanged"); }
    dv_cover("copied");
}
DV_ENTRY(get_bytes) {
    Seg a("n", "a"), b("m", "b");
    Range2 r(a.n, b.n, kMax);
    a.s.Get(static_cast<int32_t>(r.i), b.s.GetArray(), static_cast<int32_t>(r.j), static_cast<int32_t>(r.len));
    Copied(b.data(), b.old, b.n, r.j, a.data(), a.old, a.n, r.i, r.len);
}
DV_ENTRY(put_bytes) {
    Seg a("n", "a"), b("m", "b");
    Range2 r(a.n, b.n, kMax);
    b.s.Put(static_cast<int32_t>(r.j), *a.s.GetArray(), static_cast<int32_t>(r.i), static_cast<int32_t>(r.len));
    Copied(b.data(), b.old, b.n, r.j, a.data(), a.old, a.n, r.i, r.len);
}
DV_ENTRY(get_put_all) {
    Seg a("n", "a"), b("m", "b");
    uint64_t i = dv_len("i", kMax);
    dv_assume(i <= a.n && b.n <= a.n - i);
    if (dv_split(dv_bool("put"))) {
        a.s.Put(static_cast<int32_t>(i), *b.s.GetArray());
        Copied(a.data(), a.old, a.n, i, b.data(), b.old, b.n, 0, b.n);
    } else {
        a.s.Get(static_cast<int32_t>(i), b.s.GetArray());
        Copied(b.data(), b.old, b.n, 0, a.data(), a.old, a.n, i, b.n);
    }
}
DV_ENTRY(copy_to) {
    Seg a("n", "a"), b("m", "b");
    Range2 r(a.n, b.n, kMax);
    a.s.CopyTo(static_cast<int32_t>(r.i), &b.s, static_cast<int32_t>(r.j), static_cast<int32_t>(r.len));
    Copied(b.data(), b.old, b.n, r.j, a.data(), a.old, a.n, r.i, r.len);
}
DV_ENTRY(copy_to_unsafe) {
    Seg a("n", "a"), b("m", "b");
    Range2 r(a.n, b.n, kMax);
    a.s.CopyToUnsafe(static_cast<int32_t>(r.i), b.s.GetArray()->data(), static_cast<int32_t>(r.j), static_cast<int32_t>(r.len));
    Copied(b.data(), b.old, b.n, r.j, a.data(), a.old, a.n, r.i, r.len);
}
DV_ENTRY(swap) {
    Seg a("n", "a"), b("m", "b");
    Range2 r(a.n, b.n, kMax);
    uint64_t tn = dv_len("tn", kMax);
    dv_assume(tn >= r.len);
    Bytes tmp(tn, &a.pool);
    a.s.SwapBytes(&tmp, &b.s, static_cast<int32_t>(r.i), static_cast<int32_t>(r.j), static_cast<int32_t>(r.len));
    const char* d = a.data();
    const char* e = b.data();
    DV_FORALL(k, a.n) {
        if (k >= r.i && k - r.i < r.len) dv_assert(d[k] == b.old[r.j + (k - r.i)], "swapped in");
        else dv_assert(d[k] == a.old[k], "other bytes unchanged");
    }
    DV_FORALL(k2, b.n) {
        if (k2 >= r.j && k2 - r.j < r.len) dv_assert(e[k2] == a.old[r.i + (k2 - r.j)], "swapped out");
        else dv_assert(e[k2] == b.old[k2], "other bytes unchanged");
    }
    dv_cover("swap");
}
// comparisons
static bool SameBytes(const char* x, const char* y, uint64_t len) {
    for (uint64_t k = 0; k < len; k++) {
        if (x[k] != y[k]) return false;
    }
    return true;
}
static void Equal(uint64_t cap) {
    Seg a("n", "a"), b("m", "b");
    Range2 r(a.n, b.n, cap);
    bool e = a.s.EqualTo(b.s, static_cast<int32_t>(r.i), static_cast<int32_t>(r.j), static_cast<int32_t>(r.len));
    dv_assert(e == SameBytes(a.old + r.i, b.old + r.j, r.len), "equal exactly when all compared bytes agree");
    dv_cover("equal");
}
static void Compare(uint64_t cap) {
    Seg a("n", "a"), b("m", "b");
    Range2 r(a.n, b.n, cap);
    int32_t i = static_cast<int32_t>(r.i), j = static_cast<int32_t>(r.j), len = static_cast<int32_t>(r.len);
    int32_t c = a.s.Compare(b.s, i, j, len);
    int32_t d = b.s.Compare(a.s, j, i, len);
    dv_assert((c == 0) == SameBytes(a.old + r.i, b.old + r.j, r.len), "0 exactly when all compared bytes agree");
    dv_assert((c < 0) == (d > 0) && (c > 0) == (d < 0), "opposite sign the other way round");
    dv_cover("compare");
}
static void CompareLen(uint64_t cap) {
    Seg a("n", "a"), b("m", "b");
    uint64_t l1 = dv_len("l1", cap), l2 = dv_len("l2", cap);
    uint64_t i = dv_len("i", kMax), j = dv_len("j", kMax);
    dv_assume(i <= a.n && l1 <= a.n - i && j <= b.n && l2 <= b.n - j);
    int32_t c = a.s.Compare(b.s, static_cast<int32_t>(i), static_cast<int32_t>(j), static_cast<int32_t>(l1), static_cast<int32_t>(l2));
    uint64_t m = l1 < l2 ? l1 : l2;
    int32_t p = a.s.Compare(b.s, static_cast<int32_t>(i), static_cast<int32_t>(j), static_cast<int32_t>(m));
    int64_t want = p != 0 ? p : static_cast<int64_t>(l1) - static_cast<int64_t>(l2);
    dv_assert((c < 0) == (want < 0) && (c == 0) == (want == 0), "the shorter one first when it is a prefix");
    dv_cover("compare lengths");
}
DV_ENTRY(equal) { Equal(26); }
DV_ENTRY(compare) { Compare(18); }
DV_ENTRY(compare_len) { CompareLen(10); }
// the same for every length
DV_ENTRY(equal_any) { Equal(kMax); }
DV_ENTRY(compare_any) { Compare(kMax); }
DV_ENTRY(compare_len_any) { CompareLen(kMax); }
DV_ENTRY(search_equal) {
#ifdef DV_NATIVE
    Seg a("n", "a"), b("m", "b");
    Range2 r(a.n, b.n, 200);
    // mostly equal contents
    memcpy(b.s.GetArray()->data() + r.j, a.old + r.i, r.len);
    memcpy(b.old + r.j, a.old + r.i, r.len);
    if (r.len > 0 && dv_bool("flip")) {
        uint64_t at = dv_u64("at") % r.len;
        uint8_t x = dv_u8("x");
        b.s.GetArray()->data()[r.j + at] ^= x;
        b.old[r.j + at] ^= x;
    }
    bool same = SameBytes(a.old + r.i, b.old + r.j, r.len);
    int32_t i = static_cast<int32_t>(r.i), j = static_cast<int32_t>(r.j), len = static_cast<int32_t>(r.len);
    dv_assert(a.s.EqualTo(b.s, i, j, len) == same, "equal exactly when all compared bytes agree");
    dv_assert((a.s.Compare(b.s, i, j, len) == 0) == same, "0 exactly when all compared bytes agree");
    dv_assert((a.s.Compare(b.s, i, j, len) < 0) == (b.s.Compare(a.s, j, i, len) > 0), "opposite sign the other way round");
    dv_cover("search");
#endif
}
