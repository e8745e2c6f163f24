// Bit-slice index: every comparison returns exactly the matching rows.
#include "paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.h"
#include "paimon/io/byte_array_input_stream.h"
#include "paimon/memory/bytes.h"
#include "rows.h"
#include "streams.h"
using namespace paimon;
using Bsi = BitSliceIndexRoaringBitmap;
using Type = Function::Type;

// not-equal has no name of its own
template <typename B>
static auto Differ(const B& b, int64_t x, int) -> decltype(b.Compare(Type::NOT_EQUAL, x)) {
    return b.Compare(Type::NOT_EQUAL, x);
}
template <typename B>
static Result<RoaringBitmap32> Differ(const B&, int64_t, long) {
    return Status::NotImplemented("not equal");
}

struct Table : DvRows {
    int64_t min, max;
    int64_t value[8];
    uint32_t with = 0;  // rows that have a value
    // min..max needs exactly s slices
    void Range(uint32_t s) {
        uint64_t d = 0;
        if (s > 0) d = (1ull << (s - 1)) | (dv_u64("span") & ((1ull << (s - 1)) - 1));
        uint64_t m = dv_u64("min");
#ifdef DV_NATIVE
        if (m > INT64_MAX - d) m = INT64_MAX == d ? 0 : (m & 1) ? (INT64_MAX - d) : m % (INT64_MAX - d + 1);
#endif
        dv_assume(m <= INT64_MAX - d);
        min = static_cast<int64_t>(m);
        max = static_cast<int64_t>(m + d);
    }
    int64_t Value(const char* name) const {
        uint64_t v = dv_u64(name), d = static_cast<uint64_t>(max) - static_cast<uint64_t>(min);
#ifdef DV_NATIVE
        if (v > d) v = (v & 1) ? d - (v >> 1) % (d < 3 ? d + 1 : 3) : v % (d + 1);
#endif
        dv_assume(v <= d);
        return min + static_cast<int64_t>(v);
    }
    int64_t Literal() const {
        uint64_t x = dv_u64("literal");
#ifdef DV_NATIVE
        uint64_t k = dv_u8("near");
        if (k < 150 && n > 0) x = static_cast<uint64_t>(value[k % n]) + (k / n) % 3 - 1;
        if (k >= 150 && k < 200) x = static_cast<uint64_t>(k & 1 ? min : max) + (k / 2) % 3 - 1;
#endif
        return static_cast<int64_t>(x);
    }
    void Same(const Result<RoaringBitmap32>& r, uint32_t mask, const char* what) const {
        dv_assert(r.ok(), "answered");
        if (r.ok()) Is(r.value(), mask & with, what);
    }
    // 0..d
    uint64_t Step(const char* name, uint64_t d) const {
        uint64_t v = dv_u64(name);
#ifdef DV_NATIVE
        if (v > d) v = (v & 1) ? d - (v >> 1) % (d < 3 ? d + 1 : 3) : v % (d + 1);
#endif
        dv_assume(v <= d);
        return v;
    }
    void Answer(const Bsi& b, int op, int64_t x, uint32_t eq, uint32_t lt) const {
        if (op == 0) Same(b.Equal(x), eq, "exactly the rows with the value");
        if (op == 1) Same(b.LessThan(x), lt, "exactly the rows below the value");
        if (op == 2) Same(b.LessOrEqual(x), lt | eq, "exactly the rows up to the value");
        if (op == 3) Same(b.GreaterThan(x), ~(lt | eq), "exactly the rows above the value");
        if (op == 4) Same(b.GreaterOrEqual(x), ~lt, "exactly the rows from the value on");
        if (op == 5) {
            auto differ = Differ(b, x, 0);
            if (differ.ok() || !differ.status().IsNotImplemented()) Same(differ, ~eq, "exactly the rows with another value");
        }
    }
    void Answers(const Bsi& b, int64_t x) const {
        uint32_t eq = 0, lt = 0;
        for (uint64_t i = 0; i < n; i++) {
            eq |= static_cast<uint32_t>(value[i] == x) << i;
            lt |= static_cast<uint32_t>(value[i] < x) << i;
        }
        for (int op = 0; op < 6; op++) Answer(b, op, x, eq, lt);
        Is(b.IsNotNull(), with, "exactly the rows with a value");
    }
};

#ifndef DV_NATIVE
// slices given by the bits of the values
static std::shared_ptr<Bsi> Direct(const Table& t, uint32_t s, const uint64_t* v) {
    RoaringBitmap32 all = t.Make<RoaringBitmap32>(t.with);
    std::vector<RoaringBitmap32> slices;
    slices.reserve(s);
    for (uint32_t i = 0; i < s; i++) {
        uint32_t m = 0;
        for (uint64_t j = 0; j < t.n; j++) m |= static_cast<uint32_t>(v[j] >> i & 1) << j;
        slices.push_back(t.Make<RoaringBitmap32>(m & t.with));
    }
    return std::shared_ptr<Bsi>(new Bsi(t.min, t.max, std::move(all), std::move(slices)));
}
#endif
static std::shared_ptr<Bsi::Appender> Filled(const Table& t) {
    auto a = Bsi::Appender::Create(t.min, t.max);
    dv_assert(a.ok(), "a range of non-negative values is accepted");
    if (!a.ok()) return nullptr;
    std::shared_ptr<Bsi::Appender> p = std::move(a).value();
    for (uint64_t i = 0; i < t.n; i++) {
        if (!(t.with >> i & 1)) continue;
        dv_assert(p->Append(static_cast<int32_t>(t.id[i]), t.value[i]).ok(), "a new row with a value of the range is accepted");
    }
    return p;
}
// v, told apart from all other numbers up to d
static uint64_t Case(uint64_t v, uint64_t d) {
    for (uint64_t c = 0; c < d; c++)
        if (v == c) return c;
    return d;
}
static void Ids(Table* t, uint64_t k, uint32_t s) {
    t->Any("id", k, INT32_MAX);
    t->Range(s);
    uint64_t top = (1ull << s) - 1, d = Case(static_cast<uint64_t>(t->max) - static_cast<uint64_t>(t->min), top);
    t->max = t->min + static_cast<int64_t>(d);
    uint32_t any = t->Mask("with");
    for (uint64_t i = 0; i < k; i++) {
        t->value[i] = t->min + static_cast<int64_t>(d);
        if (!(any >> i & 1)) continue;
        t->with |= 1u << i;
        t->value[i] = t->min + static_cast<int64_t>(Case(t->Step("value", d), d));
    }
}
static int64_t Near(const Table& t) {
    int64_t x = t.Literal();
    if (x < t.min || x > t.max) return x;
    uint64_t d = static_cast<uint64_t>(t.max) - static_cast<uint64_t>(t.min);
    return t.min + static_cast<int64_t>(Case(static_cast<uint64_t>(x) - static_cast<uint64_t>(t.min), d));
}
// one comparison with a literal of the range, for any values within s slices
static void Compares(uint64_t k, uint32_t s, int op) {
    Table t;
    t.Any("id", k, INT32_MAX);
    t.Range(s);
    uint64_t d = static_cast<uint64_t>(t.max) - static_cast<uint64_t>(t.min);
    uint64_t v[8], l = t.Step("literal", d);
    uint32_t eq = 0, lt = 0;
    for (uint64_t i = 0; i < k; i++) {
        v[i] = t.Step("value", d);
#ifdef DV_NATIVE
        if (l & 1) v[i] = v[i] & 1 ? (l + 1 > d ? l : l + 1) : l - (v[i] >> 1 & 1);
#endif
        t.value[i] = t.min + static_cast<int64_t>(v[i]);
        eq |= static_cast<uint32_t>(v[i] == l) << i;
        lt |= static_cast<uint32_t>(v[i] < l) << i;
    }
    t.with = t.Mask("with");
#ifdef DV_NATIVE
    auto a = Filled(t);
    if (!a) return;
    auto b = a->Build();
#else
    auto b = Direct(t, s, v);
#endif
    t.Answer(*b, op, t.min + static_cast<int64_t>(l), eq, lt);
    dv_cover("compared");
}
static void Sizes(int op, uint32_t from, uint32_t to) {
    uint32_t s = dv_u8("slices");
#ifdef DV_NATIVE
    s = from + s % (to - from + 1);
#endif
    for (uint32_t c = from; c <= to; c++)
        if (s == c) Compares(2, c, op);
}
#define COMPARE(op, name)                           \
    DV_ENTRY(name##_0) { Sizes(op, 0, 31); }        \
    DV_ENTRY(name##_32) { Sizes(op, 32, 47); }      \
    DV_ENTRY(name##_48) { Sizes(op, 48, 63); }
COMPARE(0, equal)
COMPARE(1, less)
COMPARE(2, less_or_equal)
COMPARE(3, greater)
COMPARE(4, greater_or_equal)
COMPARE(5, differ)
// literals outside of the range
DV_ENTRY(outside) {
    Table t;
    t.Any("id", 2, INT32_MAX);
    t.Range(2);
    uint64_t d = static_cast<uint64_t>(t.max) - static_cast<uint64_t>(t.min);
    uint64_t v[2];
    for (uint64_t i = 0; i < 2; i++) {
        v[i] = t.Step("value", d);
        t.value[i] = t.min + static_cast<int64_t>(v[i]);
    }
    t.with = t.Mask("with");
#ifdef DV_NATIVE
    auto a = Filled(t);
    if (!a) return;
    auto b = a->Build();
#else
    auto b = Direct(t, 2, v);
#endif
    int64_t x = t.Literal();
    dv_assume(x < t.min || x > t.max);
    for (int op = 0; op < 6; op++) t.Answer(*b, op, x, 0, x > t.max ? 3 : 0);
    dv_cover("outside");
}

// built by appending, stored and read back
static void Built(uint64_t k, uint32_t s) {
    Table t;
    Ids(&t, k, s);
    auto a = Filled(t);
    if (!a) return;
    dv_assert(a->IsNotEmpty() == (t.with != 0), "empty exactly when no row was added");
    auto b = a->Build();
    int64_t x = Near(t);
    t.Answers(*b, x);
    dv_cover("built");
}
DV_ENTRY(built0) { Built(2, 0); }
DV_ENTRY(built1) { Built(2, 1); }
DV_ENTRY(built2) { Built(2, 2); }
DV_ENTRY(built3) { Built(1, 3); }
static void Stored(uint64_t k, uint32_t s) {
    Table t;
    Ids(&t, k, s);
    auto a = Filled(t);
    if (!a) return;
    auto pool = std::make_shared<DvPool>();
    auto bytes = a->Serialize(pool);
    dv_assert(bytes != nullptr, "serialized");
    auto in = std::make_shared<ByteArrayInputStream>(bytes->data(), bytes->size());
    auto back = Bsi::Create(in);
    dv_assert(back.ok(), "a serialized index is accepted");
    if (!back.ok()) return;
    dv_assert(*back.value() == *a->Build(), "reads back equal");
    t.Answers(*back.value(), Near(t));
    dv_cover("stored");
}
DV_ENTRY(stored0) { Stored(2, 0); }
DV_ENTRY(stored1) { Stored(2, 1); }
DV_ENTRY(stored2) { Stored(1, 2); }
DV_ENTRY(stored3) { Stored(1, 3); }
static void Cut(uint64_t k, uint32_t s) {
    Table t;
    Ids(&t, k, s);
    auto a = Filled(t);
    if (!a) return;
    auto pool = std::make_shared<DvPool>();
    auto bytes = a->Serialize(pool);
    uint64_t len = bytes->size(), cut = dv_u64("cut");
#ifdef DV_NATIVE
    cut %= len;
#endif
    dv_assume(cut < len);
    char* p = static_cast<char*>(malloc(cut ? cut : 1));
    memcpy(p, bytes->data(), cut);
    auto back = Bsi::Create(std::make_shared<ByteArrayInputStream>(p, cut));
    dv_assert(!back.ok(), "missing bytes are refused");
    free(p);
    dv_cover("cut");
}
DV_ENTRY(search_cut) { Cut(2, dv_u8("s") % 9); }

// what cannot be indexed is refused and leaves the index as it was
DV_ENTRY(refused) {
    Table t;
    Ids(&t, 2, 1);
    auto a = Filled(t);
    if (!a) return;
    int32_t row = static_cast<int32_t>(t.Pick("row"));
    int64_t v = dv_i64("v");
    bool out = v < t.min || v > t.max;
    bool has = false;
    for (uint64_t i = 0; i < t.n; i++) has = has | ((t.with >> i & 1) & (t.id[i] == static_cast<uint64_t>(row)));
    dv_assume(out || has);
    dv_assert(!a->Append(row, v).ok(), "a value outside of the range or a second value for a row is refused");
    t.Answers(*a->Build(), Near(t));
    dv_cover("refused");
}
DV_ENTRY(ranges) {
    int64_t min = dv_i64("min"), max = dv_i64("max");
    dv_assume(min < 0 || min > max);
    dv_assert(!Bsi::Appender::Create(min, max).ok(), "negative values and reversed ranges are refused");
    dv_cover("ranges");
}
DV_ENTRY(empty) {
    Table t;
    t.Any("id", 1, INT32_MAX);
    t.min = t.max = 0;
    t.value[0] = 0;
    t.Answers(*Bsi::Empty(), dv_i64("literal"));
    dv_cover("empty");
}
// version and slice count
DV_ENTRY(header) {
    Table t;
    t.Any("id", 1, INT32_MAX);
    RoaringBitmap32 none;
    auto pool = std::make_shared<DvPool>();
    auto set = none.Serialize(pool.get());
    uint64_t n = 17 + set->size() + 4;
    char* p = static_cast<char*>(malloc(n));
    for (uint64_t i = 0; i < 17; i++) p[i] = static_cast<char>(dv_u8("byte"));
    memcpy(p + 17, set->data(), set->size());
    uint32_t count = dv_u32("count");
#ifdef DV_NATIVE
    if (count & 1) p[0] = 1;
    if (count & 2) count |= 0x80000000u;
    else count &= 0xffff;
#else
    // fewer bytes than the named slices need are searched on the compiled code only
    dv_assume(p[0] > 1 || count == 0 || count > 64);
#endif
    for (uint64_t i = 0; i < 4; i++) p[n - 4 + i] = static_cast<char>(count >> (24 - 8 * i));
    auto back = Bsi::Create(std::make_shared<ByteArrayInputStream>(p, n));
    dv_assert(!back.ok() || (p[0] <= 1 && count == 0), "newer versions and missing or negative numbers of slices are refused");
    free(p);
    dv_cover("header");
}
DV_ENTRY(search_table) {
    Table t;
    uint32_t s = dv_u8("s") % 64;
    t.Any("id", 6, INT32_MAX);
    t.Range(s);
    for (uint64_t i = 0; i < t.n; i++) t.value[i] = t.Value("value");
    t.with = t.Mask("with");
    auto a = Filled(t);
    if (!a) return;
    auto b = a->Build();
    for (int i = 0; i < 4; i++) t.Answers(*b, t.Literal());
    auto pool = std::make_shared<DvPool>();
    auto bytes = a->Serialize(pool);
    auto back = Bsi::Create(std::make_shared<ByteArrayInputStream>(bytes->data(), bytes->size()));
    dv_assert(back.ok(), "a serialized index is accepted");
    if (!back.ok()) return;
    dv_assert(*back.value() == *b, "reads back equal");
    for (int i = 0; i < 4; i++) t.Answers(*back.value(), t.Literal());
}
