// A list of memory segments against the same bytes in one flat buffer.
#include "paimon/common/io/memory_segment_output_stream.h"
#include "segments.h"
using namespace paimon;
using U = MemorySegmentUtils;
struct Lay : DvSegments {
    DvPool pool;
    uint64_t off;
    Lay(uint64_t k, uint64_t n, uint64_t max) {
        Make("p", "ss", "ls", k, max, &pool);
        off = dv_len("off", k * max);
        dv_assume(n <= total && off <= total - n);
    }
    int32_t o() const { return static_cast<int32_t>(off); }
};
constexpr uint64_t kMax = 0x07ffffff;
template <typename T>
static T Flat(const char* p) {
    T v;
    memcpy(&v, p, sizeof(T));
    return v;
}
// ---- typed values
template <typename T>
static void Get(uint64_t k, uint64_t max) {
    Lay g(k, sizeof(T), max);
    T v = U::GetValue<T>(g.v, g.o());
    dv_assert(v == Flat<T>(g.flat + g.off), "value read");
    g.Same("reading changes nothing");
    dv_cover("get");
}
template <typename T>
static void Set(uint64_t k, T v, uint64_t max) {
    Lay g(k, sizeof(T), max);
    U::SetValue<T>(&g.v, g.o(), v);
    memcpy(g.flat + g.off, &v, sizeof(T));
    g.Same("exactly the bytes of the value are written");
    dv_cover("set");
}
#define VALUES(T, name, in)                                    \
    DV_ENTRY(get_##name##1) { Get<T>(1, kMax); }               \
    DV_ENTRY(get_##name##2) { Get<T>(2, kMax); }               \
    DV_ENTRY(get_##name##3) { Get<T>(3, kMax); }               \
    DV_ENTRY(set_##name##1) { Set<T>(1, in, kMax); }           \
    DV_ENTRY(set_##name##2) { Set<T>(2, in, kMax); }           \
    DV_ENTRY(set_##name##3) { Set<T>(3, in, kMax); }           \
    DV_ENTRY(search_get_##name) { Get<T>(1 + dv_len("k", 11), 12); } \
    DV_ENTRY(search_set_##name) { Set<T>(1 + dv_len("k", 11), in, 12); }
VALUES(char, byte, static_cast<char>(dv_i8("v")))
VALUES(int16_t, short, dv_i16("v"))
VALUES(int32_t, int, dv_i32("v"))
VALUES(int64_t, long, dv_i64("v"))
#ifdef DV_NATIVE
template <typename T, typename I>
static void Real(I bits) {
    Lay g(1 + dv_len("k", 11), sizeof(T), 12);
    T v;
    memcpy(&v, &bits, sizeof(T));
    U::SetValue<T>(&g.v, g.o(), v);
    memcpy(g.flat + g.off, &v, sizeof(T));
    g.Same("exactly the bytes of the value are written");
    T w = U::GetValue<T>(g.v, g.o());
    dv_assert(memcmp(&v, &w, sizeof(T)) == 0, "value read");
}
DV_ENTRY(search_float) { Real<float>(dv_i32("v")); }
DV_ENTRY(search_double) { Real<double>(dv_i64("v")); }
#endif
// ---- blocks
static void CopyOut(uint64_t k, uint64_t max) {
    uint64_t n = dv_len("n", k * max);
    Lay g(k, n, max);
    auto b = U::CopyToBytes(g.v, g.o(), static_cast<int32_t>(n), &g.pool);
    dv_assert(b->size() == n, "size of the copy");
    DV_FORALL(i, n) { dv_assert(b->data()[i] == g.flat[g.off + i], "bytes copied"); }
    auto c = U::GetBytes(g.v, g.o(), static_cast<int32_t>(n), &g.pool);
    dv_assert(c->size() == n, "size");
    DV_FORALL(i, n) { dv_assert(c->data()[i] == g.flat[g.off + i], "bytes"); }
    g.Same("reading changes nothing");
    dv_cover("copied");
}
static void CopyInto(uint64_t k, uint64_t max) {
    uint64_t n = dv_len("n", k * max);
    Lay g(k, n, max);
    uint64_t size = dv_len("size", k * max), at = dv_len("at", k * max);
    dv_assume(n <= size && at <= size - n);
    char* old;
    auto d = DvBytes("d", size, &g.pool, &old);
    U::CopyToBytes(g.v, g.o(), d.get(), static_cast<int32_t>(at), static_cast<int32_t>(n));
    DV_FORALL(i, size) {
        dv_assert(d->data()[i] == (i >= at && i < at + n ? g.flat[g.off + (i - at)] : old[i]), "exactly the requested bytes");
    }
    char* e = static_cast<char*>(dv_alloc("e", n, 1));
    U::CopyToUnsafe(g.v, g.o(), e, static_cast<int32_t>(n));
    DV_FORALL(i, n) { dv_assert(e[i] == g.flat[g.off + i], "bytes copied to memory"); }
    g.Same("reading changes nothing");
    dv_cover("copied");
}
static void CopyIn(uint64_t k, uint64_t max) {
    uint64_t n = dv_len("n", k * max);
    Lay g(k, n, max);
    uint64_t size = dv_len("size", k * max), at = dv_len("at", k * max);
    dv_assume(n <= size && at <= size - n);
    char* s;
    auto b = DvBytes("s", size, &g.pool, &s);
    U::CopyFromBytes(&g.v, g.o(), *b, static_cast<int32_t>(at), static_cast<int32_t>(n));
    if (n > 0) memcpy(g.flat + g.off, s + at, n);
    g.Same("exactly the requested bytes are written");
    DV_FORALL(i, size) { dv_assert(b->data()[i] == s[i], "source unchanged"); }
    dv_cover("copied");
}
static void ToStream(uint64_t k, uint64_t max) {
    uint64_t n = dv_len("n", k * max);
    Lay g(k, n, max);
    auto pool = std::make_shared<DvPool>();
    MemorySegmentOutputStream out(static_cast<int32_t>(k * max), pool);
    Status st = U::CopyToStream(g.v, g.o(), static_cast<int32_t>(n), &out);
    dv_assert(st.ok(), "copied");
    dv_assert(out.CurrentSize() == static_cast<int64_t>(n), "exactly that many bytes");
    const char* d = out.Segments()[0].GetArray()->data();
    DV_FORALL(i, n) { dv_assert(d[i] == g.flat[g.off + i], "bytes copied to the stream"); }
    dv_cover("streamed");
}
#define BLOCKS(f, name)                     \
    DV_ENTRY(name##1) { f(1, kMax); }       \
    DV_ENTRY(name##2) { f(2, kMax); }       \
    DV_ENTRY(name##3) { f(3, kMax); }       \
    DV_ENTRY(search_##name) { f(1 + dv_len("k", 6), 9); }
BLOCKS(CopyOut, copy_out)
BLOCKS(CopyInto, copy_into)
BLOCKS(CopyIn, copy_in)
BLOCKS(ToStream, stream)
// ---- bits
static void Bits(uint64_t k, int what, uint64_t max) {
    Lay g(k, 1, max);
    uint64_t base = dv_len("base", k * max);
    dv_assume(base <= g.off);
    uint64_t bit = (g.off - base) * 8 + dv_len("bit", 7);
    dv_assume(bit < (g.off - base) * 8 + 8);
    int32_t b = static_cast<int32_t>(base), x = static_cast<int32_t>(bit);
    char m = static_cast<char>(1 << (bit % 8));
    if (what == 0) {
        dv_assert(U::BitGet(g.v, b, x) == ((g.flat[g.off] & m) != 0), "bit read");
        if (k == 1) dv_assert(U::BitGet(g.v[0], b, x) == ((g.flat[g.off] & m) != 0), "bit read");
    } else if (what == 1) {
        U::BitSet(&g.v, b, x);
        g.flat[g.off] = static_cast<char>(g.flat[g.off] | m);
    } else if (what == 2) {
        U::BitUnSet(&g.v, b, x);
        g.flat[g.off] = static_cast<char>(g.flat[g.off] & ~m);
    } else if (what == 3) {
        U::BitSet(&g.v[0], b, x);
        g.flat[g.off] = static_cast<char>(g.flat[g.off] | m);
    } else {
        U::BitUnSet(&g.v[0], b, x);
        g.flat[g.off] = static_cast<char>(g.flat[g.off] & ~m);
    }
    g.Same("exactly that bit");
    dv_cover("bit");
}
#define BITS(k)                                       \
    DV_ENTRY(bit_get##k) { Bits(k, 0, 0x00ffffff); }  \
    DV_ENTRY(bit_set##k) { Bits(k, 1, 0x00ffffff); }  \
    DV_ENTRY(bit_unset##k) { Bits(k, 2, 0x00ffffff); }
BITS(1)
BITS(2)
BITS(3)
DV_ENTRY(bit_set) { Bits(1, 3, 0x00ffffff); }
DV_ENTRY(bit_unset) { Bits(1, 4, 0x00ffffff); }
DV_ENTRY(search_bits) { Bits(1 + dv_len("k", 6), static_cast<int>(dv_len("what", 2)), 9); }
// ---- comparison
static void Equal(uint64_t k1, uint64_t k2, uint64_t n, uint64_t max) {
    DvPool pool;
    DvSegments a, b;
    a.Make("p", "ss", "ls", k1, max, &pool);
    b.Make("q", "ss2", "ls2", k2, max, &pool);
    uint64_t o1 = dv_len("o1", k1 * max), o2 = dv_len("o2", k2 * max);
    dv_assume(n <= a.total && o1 <= a.total - n && n <= b.total && o2 <= b.total - n);
#ifdef DV_NATIVE
    if (dv_bool("same"))
        for (uint64_t i = 0; i < n; i++) {
            b.flat[o2 + i] = a.flat[o1 + i];
            b.v[(o2 + i) / b.ss].GetArray()->data()[(o2 + i) % b.ss] = a.flat[o1 + i];
        }
#endif
    bool same = true;
    for (uint64_t i = 0; i < n; i++) same = same & (a.flat[o1 + i] == b.flat[o2 + i]);
    int32_t x = static_cast<int32_t>(o1), y = static_cast<int32_t>(o2), l = static_cast<int32_t>(n);
    dv_assert(U::Equals(a.v, x, b.v, y, l) == same, "equal exactly when the bytes agree");
    dv_assert(U::EqualsMultiSegments(a.v, x, b.v, y, l) == same, "equal exactly when the bytes agree (several segments)");
    dv_cover("compared");
}
DV_ENTRY(equal11_0) { Equal(1, 1, 0, kMax); }
DV_ENTRY(equal11_3) { Equal(1, 1, 3, kMax); }
DV_ENTRY(equal11_9) { Equal(1, 1, 9, kMax); }
DV_ENTRY(equal12_3) { Equal(1, 2, 3, kMax); }
DV_ENTRY(equal21_3) { Equal(2, 1, 3, kMax); }
DV_ENTRY(equal22_3) { Equal(2, 2, 3, kMax); }
DV_ENTRY(equal33_2) { Equal(3, 3, 2, kMax); }
DV_ENTRY(search_equal) { Equal(1 + dv_len("k1", 5), 1 + dv_len("k2", 5), dv_len("n", 24), 12); }
// ---- search
static void Find(uint64_t k1, uint64_t k2, uint64_t n1, uint64_t n2, uint64_t max) {
    DvPool pool;
    DvSegments a, b;
    a.Make("p", "ss", "ls", k1, max, &pool);
    b.Make("q", "ss2", "ls2", k2, max, &pool);
    uint64_t o1 = dv_len("o1", k1 * max), o2 = dv_len("o2", k2 * max);
    dv_assume(n1 <= a.total && o1 <= a.total - n1 && n2 <= b.total && o2 <= b.total - n2);
#ifdef DV_NATIVE
    if (dv_bool("few"))
        for (DvSegments* s : {&a, &b})
            for (uint64_t i = 0; i < s->total; i++) {
                s->flat[i] = static_cast<char>(s->flat[i] & 1);
                s->v[i / s->ss].GetArray()->data()[i % s->ss] = s->flat[i];
            }
#endif
    int64_t want = -1;
    for (uint64_t i = n1 + 1; i-- > 0;) {
        if (i + n2 > n1) continue;
        bool same = true;
        for (uint64_t j = 0; j < n2; j++) same = same & (a.flat[o1 + i + j] == b.flat[o2 + j]);
        if (same) want = static_cast<int64_t>(o1 + i);
    }
    int32_t r = U::Find(a.v, static_cast<int32_t>(o1), static_cast<int32_t>(n1), b.v, static_cast<int32_t>(o2), static_cast<int32_t>(n2));
    dv_assert(r == want, "first position where the bytes agree, or -1");
    dv_cover("found");
}
DV_ENTRY(find11) { Find(1, 1, 4, 2, kMax); }
DV_ENTRY(find11_0) { Find(1, 1, 2, 0, kMax); }
DV_ENTRY(find11_long) { Find(1, 1, 1, 2, kMax); }
DV_ENTRY(find21) { Find(2, 1, 3, 2, kMax); }
DV_ENTRY(find12) { Find(1, 2, 3, 2, kMax); }
DV_ENTRY(find22) { Find(2, 2, 2, 1, kMax); }
DV_ENTRY(search_find) { Find(1 + dv_len("k1", 5), 1 + dv_len("k2", 3), dv_len("n1", 20), dv_len("n2", 5), 12); }
