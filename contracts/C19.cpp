// Row-id bitmaps of both widths.
#include <set>

#include "paimon/io/byte_array_input_stream.h"
#include "paimon/memory/memory_pool.h"
#include "rows.h"
#include "streams.h"
using namespace paimon;

template <typename B>
struct Of;
template <>
struct Of<RoaringBitmap32> {
    using T = int32_t;
};
template <>
struct Of<RoaringBitmap64> {
    using T = int64_t;
};
template <typename B>
using T = typename Of<B>::T;
template <typename B>
constexpr uint64_t Max() {
    return std::numeric_limits<T<B>>::max();
}

template <typename B>
void Empty() {
    DvRows u;
    u.Any("id", 3, Max<B>());
    B b;
    u.Exactly(b, 0, "a new bitmap is empty");
    dv_assert(b == B(), "new bitmaps are equal");
    dv_cover("empty");
}
template <typename B>
void Add() {
    DvRows u;
    u.Any("id", 4, Max<B>());
    uint32_t m = u.Mask("set");
    B b = u.Make<B>(m);
    u.Exactly(b, m, "the elements added");
    uint64_t i = static_cast<uint64_t>(dv_in("i", 0, 3));
    auto x = static_cast<T<B>>(u.id[i]);
    if (dv_bool("checked")) {
        dv_assert(b.CheckedAdd(x) == !(m >> i & 1), "whether the element is new");
    } else {
        b.Add(x);
    }
    u.Exactly(b, m | 1u << i, "the element is added and nothing else");
    dv_cover("added");
}
template <typename B>
void Ranges(bool block, int op) {
    DvRows u;
    if (block) {
        u.Block("id", 4, Max<B>() - 1);
    } else {
        u.Any("id", 3, Max<B>());
    }
    uint32_t m = u.Mask("set");
    B b = u.Make<B>(m);
    T<B> lo, hi;
    if (block) {
        lo = static_cast<T<B>>(u.id[0] + static_cast<uint64_t>(dv_in("lo", 0, 4)));
        hi = static_cast<T<B>>(u.id[0] + static_cast<uint64_t>(dv_in("hi", 0, 4)));
    } else {
        lo = static_cast<T<B>>(dv_in("lo", 0, std::numeric_limits<T<B>>::max()));
        hi = static_cast<T<B>>(dv_in("hi", 0, std::numeric_limits<T<B>>::max()));
#ifdef DV_NATIVE
        // the real sets would be walked element by element
        if (op != 3 && hi > lo && static_cast<uint64_t>(hi) - lo > 1000000) hi = lo + 1000000;
#endif
    }
    uint32_t r = 0;
    for (uint64_t i = 0; i < u.n; i++)
        r |= static_cast<uint32_t>((static_cast<int64_t>(u.id[i]) >= lo) & (static_cast<int64_t>(u.id[i]) < hi)) << i;
    uint32_t want = m;
    if (op == 0) {
        b.AddRange(lo, hi);
        want = m | r;
    } else if (op == 1) {
        b.RemoveRange(lo, hi);
        want = m & ~r;
    } else if (op == 2) {
        b.Flip(lo, hi);
        want = m ^ r;
    } else {
        dv_assert(b.ContainsAny(lo, hi) == ((m & r) != 0), "an element lies in the half-open interval");
    }
    if (block) {
        u.Exactly(b, want, "exactly the half-open interval is changed");
    } else {
        u.Is(b, want, "exactly the half-open interval is changed");
    }
    dv_cover("range");
}
template <typename B>
void Combine(int op) {
    DvRows u;
    u.Any("id", 3, Max<B>());
    uint32_t x = u.Mask("x"), y = u.Mask("y");
    B a = u.Make<B>(x), b = u.Make<B>(y);
    uint32_t want = op == 0 ? x & y : op == 1 ? x | y : x & ~y;
    B r = op == 0 ? B::And(a, b) : op == 1 ? B::Or(a, b) : B::AndNot(a, b);
    u.Exactly(r, want, "result of the set operation");
    u.Exactly(a, x, "left argument unchanged");
    u.Exactly(b, y, "right argument unchanged");
    B c = a;
    B& back = op == 0 ? (c &= b) : op == 1 ? (c |= b) : (c -= b);
    dv_assert(&back == &c, "the object itself is returned");
    u.Exactly(c, want, "result in place");
    u.Exactly(a, x, "the copied bitmap is unchanged");
    u.Exactly(b, y, "argument of the in-place operation unchanged");
    dv_assert((a == b) == (x == y), "equal exactly for the same elements");
    dv_assert(r == c, "both forms agree");
    dv_cover("combined");
}
// the same bitmap on both sides
template <typename B>
void Self() {
    DvRows u;
    u.Any("id", 3, Max<B>());
    uint32_t x = u.Mask("x");
    B a = u.Make<B>(x);
    u.Exactly(B::And(a, a), x, "intersection with itself");
    u.Exactly(B::Or(a, a), x, "union with itself");
    u.Exactly(B::AndNot(a, a), 0, "difference from itself");
    a |= a;
    a &= a;
    u.Exactly(a, x, "in place with itself");
    const B& same = a;
    a = same;
    u.Exactly(a, x, "assigned to itself");
    dv_assert(a == same, "equal to itself");
    a -= a;
    u.Exactly(a, 0, "difference from itself in place");
    dv_cover("self");
}
template <typename B>
void Union(uint64_t k) {
    DvRows u;
    u.Any("id", 3, Max<B>());
    std::vector<B> in;
    std::vector<const B*> ptr;
    uint32_t want = 0;
    for (uint64_t i = 0; i < k; i++) {
        uint32_t x = u.Mask("x");
        in.push_back(u.Make<B>(x));
        want |= x;
    }
    for (uint64_t i = 0; i < k; i++) ptr.push_back(&in[i]);
    u.Exactly(B::FastUnion(in), want, "union of all");
    u.Exactly(B::FastUnion(ptr), want, "union of all");
    dv_cover("union");
}
template <typename B>
void From(uint64_t k) {
    DvRows u;
    u.Any("id", 3, Max<B>());
    std::vector<T<B>> v;
    uint32_t want = 0;
    for (uint64_t i = 0; i < k; i++) {
        uint64_t j = dv_in("j", 0, 2);
        v.push_back(static_cast<T<B>>(u.id[j]));
        want |= 1u << j;
    }
    u.Exactly(B::From(v), want, "the values, whatever their order and repetition");
    dv_cover("from");
}
template <typename B>
void Iterate() {
    DvRows u;
    u.Any("id", 3, Max<B>());
    uint32_t m = u.Mask("set");
    B b = u.Make<B>(m);
    auto key = static_cast<T<B>>(dv_in("key", 0, std::numeric_limits<T<B>>::max()));
    auto it = b.EqualOrLarger(key);
    for (uint64_t i = 0; i < u.n; i++) {
        if (!(m >> i & 1) || static_cast<int64_t>(u.id[i]) < key) continue;
        dv_assert(it != b.End(), "every element from the key on is reached");
        if (!(it != b.End())) break;
        dv_assert(static_cast<uint64_t>(*it) == u.id[i], "ascending from the key on");
        ++it;
        dv_cover("reached");
    }
    dv_assert(it == b.End(), "nothing behind the last element");
    // copies of an iterator are independent
    auto p = b.Begin();
    if (p != b.End()) {
        auto q = p;
        dv_assert(q == p && *q == *p, "a copy stands at the same element");
        ++p;
        dv_assert(!(p == q), "the copy stays");
        dv_assert(*q == *b.Begin(), "the copy stays");
        q = p;
        dv_assert(q == p, "assigned");
        auto r = std::move(q);
        dv_assert(r == p, "moved");
        q = b.Begin();
        r = std::move(q);
        dv_assert(r == b.Begin(), "moved by assignment");
        const auto& same = r;
        r = same;
        dv_assert(r == b.Begin(), "assigned to itself");
        dv_cover("iterators");
    }
}
template <typename B>
void Copies() {
    DvRows u;
    u.Any("id", 3, Max<B>());
    uint32_t x = u.Mask("x"), y = u.Mask("y");
    B a = u.Make<B>(x), b = u.Make<B>(y);
    B c(a);
    u.Exactly(c, x, "copy");
    c.Add(static_cast<T<B>>(u.id[0]));
    u.Exactly(a, x, "the original keeps its elements");
    u.Exactly(c, x | 1, "the copy has the new element");
    a.Add(static_cast<T<B>>(u.id[1]));
    u.Exactly(c, x | 1, "the copy keeps its elements");
    c = b;
    u.Exactly(c, y, "assigned");
    c.Add(static_cast<T<B>>(u.id[2]));
    u.Exactly(b, y, "the assigned-from bitmap keeps its elements");
    B d(std::move(c));
    u.Exactly(d, y | 4, "moved");
    b = std::move(d);
    u.Exactly(b, y | 4, "moved by assignment");
    // a moved-from bitmap can be given new content
    c = a;
    u.Exactly(c, x | 2, "assigned after a move");
    d = std::move(c);
    u.Exactly(d, x | 2, "moved to after a move");
    u.Exactly(a, x | 2, "the source of the copy keeps its elements");
    dv_cover("copies");
}
template <typename B>
void Stored() {
    DvRows u;
    u.Any("id", 3, Max<B>());
    uint32_t x = u.Mask("x"), y = u.Mask("y");
    B a = u.Make<B>(x);
    DvPool pool;
    auto bytes = a.Serialize(&pool);
    u.Exactly(a, x, "writing keeps the elements");
    dv_assert(bytes->size() == a.GetSizeInBytes(), "size announced");
    B b = u.Make<B>(y);
    dv_assert(b.Deserialize(bytes->data(), bytes->size()).ok(), "read back");
    u.Exactly(b, x, "the same elements");
    dv_assert(a == b, "equal to the original");
    dv_cover("stored");
}
// two bitmaps behind each other in a stream with bytes around them
template <typename B>
void TwoInStream() {
    DvRows u;
    u.Any("id", 2, Max<B>());
    uint32_t x = u.Mask("x"), y = u.Mask("y");
    DvPool pool;
    auto p = u.Make<B>(x).Serialize(&pool);
    auto q = u.Make<B>(y).Serialize(&pool);
    const uint64_t pre = 3, post = 2;
    uint64_t total = pre + p->size() + q->size() + post;
    char buf[200];
    dv_assert(total <= sizeof(buf), "small");
    memset(buf, 0x55, sizeof(buf));
    for (uint64_t i = 0; i < p->size(); i++) buf[pre + i] = p->data()[i];
    for (uint64_t i = 0; i < q->size(); i++) buf[pre + p->size() + i] = q->data()[i];
    ByteArrayInputStream in(buf, total);
    dv_assert(in.Seek(pre, SeekOrigin::FS_SEEK_SET).ok(), "positioned");
    B a, b;
    dv_assert(a.Deserialize(&in).ok(), "first read");
    auto pos = in.GetPos();
    dv_assert(pos.ok() && static_cast<uint64_t>(pos.value()) == pre + p->size(), "just behind the first");
    dv_assert(b.Deserialize(&in).ok(), "second read");
    pos = in.GetPos();
    dv_assert(pos.ok() && static_cast<uint64_t>(pos.value()) == total - post, "just behind the second");
    u.Exactly(a, x, "elements of the first");
    u.Exactly(b, y, "elements of the second");
    dv_cover("stream");
}
#define EACH(name, ...)                       \
    DV_ENTRY(name##_32) {                     \
        using B = RoaringBitmap32;            \
        __VA_ARGS__;                          \
    }                                         \
    DV_ENTRY(name##_64) {                     \
        using B = RoaringBitmap64;            \
        __VA_ARGS__;                          \
    }
EACH(empty, Empty<B>())
EACH(add, Add<B>())
EACH(add_range, Ranges<B>(true, 0))
EACH(remove_range, Ranges<B>(true, 1))
EACH(flip, Ranges<B>(true, 2))
EACH(any_range, Ranges<B>(true, 3))
EACH(add_range_far, Ranges<B>(false, 0))
EACH(remove_range_far, Ranges<B>(false, 1))
EACH(flip_far, Ranges<B>(false, 2))
EACH(any_range_far, Ranges<B>(false, 3))
EACH(and, Combine<B>(0))
EACH(or, Combine<B>(1))
EACH(andnot, Combine<B>(2))
EACH(self, Self<B>())
EACH(union0, Union<B>(0))
EACH(union1, Union<B>(1))
EACH(union3, Union<B>(3))
EACH(from0, From<B>(0))
EACH(from3, From<B>(3))
EACH(iterate, Iterate<B>())
EACH(copies, Copies<B>())
EACH(stored, Stored<B>())
EACH(stream, TwoInStream<B>())
DV_ENTRY(widen) {
    DvRows u;
    u.Any("id", 3, Max<RoaringBitmap32>());
    uint32_t x = u.Mask("x"), y = u.Mask("y");
    RoaringBitmap32 a = u.Make<RoaringBitmap32>(x);
    RoaringBitmap64 b(a);
    u.Exactly(b, x, "the same elements in the wider bitmap");
    RoaringBitmap64 c = u.Make<RoaringBitmap64>(y);
    c = a;
    u.Exactly(c, x, "the same elements after assignment");
    c.Add(static_cast<int64_t>(u.id[0]));
    u.Exactly(a, x, "the narrow bitmap keeps its elements");
    RoaringBitmap64 d(std::move(c));
    c = a;
    u.Exactly(c, x, "assigned after a move");
    u.Exactly(d, x | 1, "moved");
    dv_cover("widen");
}

#ifdef DV_NATIVE
// against std::set, with runs and dense parts
template <typename B>
static void History() {
    using E = T<B>;
    std::set<E> s[2];
    B b[2];
    uint64_t base = dv_u64("base");
    base = (base & 3) == 0 ? 0 : (base & 3) == 1 ? Max<B>() - 40000 : (base & 3) == 2 ? (base >> 2) % (Max<B>() - 40000) : 65536 * 3 - 20000;
    auto num = [&](const char* n) {
        uint64_t v = dv_u64(n);
        return static_cast<E>(base + ((v & 7) == 0 ? 40000 : (v & 7) < 4 ? (v >> 3) % 70 : (v >> 3) % 40001));
    };
    uint64_t steps = dv_len("steps", 12);
    for (uint64_t i = 0; i < steps; i++) {
        uint8_t op = dv_u8("op") % 12;
        uint8_t k = dv_u8("k") & 1;
        E x = num("x"), y = num("y");
        switch (op) {
            case 0:
                b[k].Add(x);
                s[k].insert(x);
                break;
            case 1:
                dv_assert(b[k].CheckedAdd(x) == s[k].insert(x).second, "whether the element is new");
                break;
            case 2:
                b[k].AddRange(x, y);
                for (E e = x; e < y; e++) s[k].insert(e);
                break;
            case 3:
                b[k].RemoveRange(x, y);
                if (x < y) s[k].erase(s[k].lower_bound(x), s[k].lower_bound(y));
                break;
            case 4:
                b[k].Flip(x, y);
                for (E e = x; e < y; e++)
                    if (!s[k].insert(e).second) s[k].erase(e);
                break;
            case 5:
                b[k] |= b[1 - k];
                s[k].insert(s[1 - k].begin(), s[1 - k].end());
                break;
            case 6:
                b[k] -= b[1 - k];
                for (E e : s[1 - k]) s[k].erase(e);
                break;
            case 7: {
                b[k] &= b[1 - k];
                std::set<E> r;
                for (E e : s[k])
                    if (s[1 - k].count(e)) r.insert(e);
                s[k] = r;
                break;
            }
            case 8:
                b[k] = b[1 - k];
                s[k] = s[1 - k];
                break;
            case 9: {
                auto pool = GetDefaultPool();
                auto bytes = b[k].Serialize(pool.get());
                B r;
                dv_assert(r.Deserialize(bytes->data(), bytes->size()).ok(), "read back");
                dv_assert(r == b[k], "the same after reading back");
                ByteArrayInputStream in(bytes->data(), bytes->size());
                B q;
                dv_assert(q.Deserialize(&in).ok() && q == b[k], "the same after reading back from a stream");
                if (bytes->size() > 0) dv_assert(!r.Deserialize(bytes->data(), dv_len("cut", bytes->size() - 1)).ok(), "missing bytes are refused");
                break;
            }
            case 10: {
                auto l = s[k].lower_bound(x);
                dv_assert(b[k].ContainsAny(x, y) == (l != s[k].end() && *l < y), "an element lies in the half-open interval");
                auto it = b[k].EqualOrLarger(x);
                for (int j = 0; j < 5 && l != s[k].end(); j++, ++l, ++it) {
                    dv_assert(it != b[k].End() && *it == *l, "ascending from the key on");
                }
                break;
            }
            default: {
                std::vector<B> in{b[0], b[1], B()};
                B r = B::FastUnion(in);
                B want = B::Or(b[0], b[1]);
                dv_assert(r == want, "union of all");
                B v = B::AndNot(b[k], b[1 - k]), w = B::And(b[0], b[1]);
                for (E e : s[k]) dv_assert(v.Contains(e) == !s[1 - k].count(e) && w.Contains(e) == (s[1 - k].count(e) > 0), "set operation");
            }
        }
        dv_assert(b[k].IsEmpty() == s[k].empty() && static_cast<uint64_t>(b[k].Cardinality()) == s[k].size(), "number of elements");
        dv_assert(b[k].Contains(x) == (s[k].count(x) > 0), "contained");
    }
    for (int k = 0; k < 2; k++) {
        auto it = b[k].Begin();
        for (E e : s[k]) {
            dv_assert(it != b[k].End() && *it == e, "iteration in ascending order");
            ++it;
        }
        dv_assert(it == b[k].End(), "iteration ends after the last element");
    }
}
DV_ENTRY(search_history_32) { History<RoaringBitmap32>(); }
DV_ENTRY(search_history_64) { History<RoaringBitmap64>(); }
#else
DV_ENTRY(search_history_32) {}
DV_ENTRY(search_history_64) {}
#endif
