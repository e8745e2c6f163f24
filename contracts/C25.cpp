// Column statistics: one collected value, from every earlier state.  Sequences follow by induction:
// the new bounds are the old ones or the value, bound both, and the count moves by the value's null.
#include "dv.h"
#include "paimon/data/decimal.h"
#include "paimon/format/column_stats.h"
using namespace paimon;
#include "paimon/data/timestamp.h"
// Decimal needs libraries that are not here; statistics only use its order.
namespace paimon {
int32_t Decimal::CompareTo(const Decimal& other) const {
    return value_ < other.value_ ? -1 : value_ > other.value_ ? 1 : 0;
}
std::string Decimal::ToString() const { return std::string(); }
}  // namespace paimon

template <typename T, typename F>
static std::optional<T> Opt(const char* has, F value) {
    T v = value();
    if (dv_bool(has)) return v;
    return std::nullopt;
}
// min/max/count before, one value, min/max/count after
template <typename T>
static void Check(const std::optional<T>& min, const std::optional<T>& max, const std::optional<int64_t>& nulls, const std::optional<T>& v,
                  const std::optional<T>& min2, const std::optional<T>& max2, const std::optional<int64_t>& nulls2) {
    dv_assert(nulls2.has_value(), "nulls are counted");
    dv_assert(*nulls2 == (nulls ? *nulls : 0) + (v ? 0 : 1), "number of nulls");
    if (!v) {
        dv_assert(min2.has_value() == min.has_value() && max2.has_value() == max.has_value(), "a null sets no bound");
        if (min) dv_assert(*min2 == *min, "a null keeps the minimum");
        if (max) dv_assert(*max2 == *max, "a null keeps the maximum");
        dv_cover("null");
        return;
    }
    dv_assert(min2.has_value() && max2.has_value(), "a value sets both bounds");
    if (!min2 || !max2) return;
    dv_assert(!(*v < *min2) && !(min && *min < *min2), "minimum bounds every value");
    dv_assert(!(*max2 < *v) && !(max && *max2 < *max), "maximum bounds every value");
    dv_assert(*min2 == *v || (min && *min2 == *min), "minimum is one of the values");
    dv_assert(*max2 == *v || (max && *max2 == *max), "maximum is one of the values");
    dv_cover("value");
}
static std::optional<int64_t> Nulls() {
    return Opt<int64_t>("has_nulls", [] { return dv_in("nulls", 0, INT64_MAX - 1); });
}
template <typename S, typename T, typename F, typename C>
static void Step(F value, C create, FieldType type) {
    auto min = Opt<T>("has_min", [&] { return value("min"); });
    auto max = Opt<T>("has_max", [&] { return value("max"); });
    auto v = Opt<T>("has_v", [&] { return value("v"); });
    auto nulls = Nulls();
    std::unique_ptr<ColumnStats> stats = create(min, max, nulls);
    S* s = static_cast<S*>(stats.get());
    auto same = [](const std::optional<T>& a, const std::optional<T>& b) { return a.has_value() == b.has_value() && (!a || *a == *b); };
    dv_assert(same(s->Min(), min) && same(s->Max(), max), "bounds given are kept");
    dv_assert(s->NullCount() == nulls, "count given is kept");
    dv_assert(s->GetFieldType() == type, "type of the column");
    s->Collect(v);
    Check<T>(min, max, nulls, v, s->Min(), s->Max(), s->NullCount());
}
#define NUM(name, S, T, make, field, value) \
    DV_ENTRY(name) { Step<S, T>([](const char* n) { return value; }, [](auto a, auto b, auto c) { return ColumnStats::make(a, b, c); }, FieldType::field); }
static float Float(const char* n) {
    uint32_t b = dv_u32(n);
    float f;
    memcpy(&f, &b, 4);
    dv_assume(f == f);
    return f;
}
static double Double(const char* n) {
    uint64_t b = dv_u64(n);
    double f;
    memcpy(&f, &b, 8);
    dv_assume(f == f);
    return f;
}
NUM(boolean, BooleanColumnStats, bool, CreateBooleanColumnStats, BOOLEAN, dv_bool(n))
NUM(tinyint, TinyIntColumnStats, int8_t, CreateTinyIntColumnStats, TINYINT, static_cast<int8_t>(dv_u8(n)))
NUM(smallint, SmallIntColumnStats, int16_t, CreateSmallIntColumnStats, SMALLINT, dv_i16(n))
NUM(integer, IntColumnStats, int32_t, CreateIntColumnStats, INT, dv_i32(n))
NUM(bigint, BigIntColumnStats, int64_t, CreateBigIntColumnStats, BIGINT, dv_i64(n))
NUM(date, DateColumnStats, int32_t, CreateDateColumnStats, DATE, dv_i32(n))
NUM(real, FloatColumnStats, float, CreateFloatColumnStats, FLOAT, Float(n))
NUM(real64, DoubleColumnStats, double, CreateDoubleColumnStats, DOUBLE, Double(n))
DV_ENTRY(timestamp) {
    int32_t precision = dv_i32("precision");
    Step<TimestampColumnStats, Timestamp>(
        [](const char* n) { return Timestamp(dv_i64(n), static_cast<int32_t>(dv_in("ns", 0, 999999))); },
        [&](auto a, auto b, auto c) {
            auto s = ColumnStats::CreateTimestampColumnStats(a, b, c, precision);
            dv_assert(static_cast<TimestampColumnStats*>(s.get())->GetPrecision() == precision, "precision kept");
            return s;
        },
        FieldType::TIMESTAMP);
}
DV_ENTRY(decimal) {
    int32_t precision = dv_i32("precision"), scale = dv_i32("scale");
    Step<DecimalColumnStats, Decimal>(
        [&](const char* n) { return Decimal(precision, scale, static_cast<Decimal::int128_t>(static_cast<Decimal::uint128_t>(dv_u64(n)) << 64 | dv_u64("low"))); },
        [&](auto a, auto b, auto c) {
            auto s = ColumnStats::CreateDecimalColumnStats(a, b, c, precision, scale);
            dv_assert(static_cast<DecimalColumnStats*>(s.get())->GetPrecision() == precision, "precision kept");
            dv_assert(static_cast<DecimalColumnStats*>(s.get())->GetScale() == scale, "scale kept");
            return s;
        },
        FieldType::DECIMAL);
}
static std::string Text(const char* n, uint64_t len) {
    char* p = static_cast<char*>(dv_alloc(n, len, 1));
    return std::string(p, len);
}
static void Strings(uint64_t l1, uint64_t l2, uint64_t l3) {
    std::string min = Text("min", l1), max = Text("max", l2), v = Text("v", l3);
    std::optional<std::string> a, b, c;
    if (dv_bool("has_bounds")) {
        a = min;
        b = max;
    }
    if (dv_bool("has_v")) c = v;
    auto nulls = Nulls();
    auto stats = ColumnStats::CreateStringColumnStats(a, b, nulls);
    auto* s = static_cast<StringColumnStats*>(stats.get());
    dv_assert(s->GetFieldType() == FieldType::STRING, "type of the column");
    s->Collect(c);
    Check<std::string>(a, b, nulls, c, s->Min(), s->Max(), s->NullCount());
}
DV_ENTRY(string1) { Strings(1, 1, 1); }
DV_ENTRY(string2) { Strings(2, 2, 2); }
DV_ENTRY(string012) { Strings(0, 2, 1); }
DV_ENTRY(string120) { Strings(1, 2, 0); }
DV_ENTRY(string211) { Strings(2, 1, 1); }
DV_ENTRY(string_long) { Strings(1, 17, 17); }
DV_ENTRY(nested) {
    auto nulls = Nulls();
    uint8_t t = dv_u8("type") % 3;
    FieldType type = t == 0 ? FieldType::ARRAY : t == 1 ? FieldType::MAP : FieldType::STRUCT;
    auto s = ColumnStats::CreateNestedColumnStats(type, nulls);
    dv_assert(s->NullCount() == nulls, "count given is kept");
    dv_assert(s->GetFieldType() == type, "type of the column");
    dv_cover("nested");
}
// histories on the compiled code
DV_ENTRY(search_strings) { Strings(dv_len("l1", 20), dv_len("l2", 20), dv_len("l3", 20)); }
DV_ENTRY(search_history) {
    auto stats = ColumnStats::CreateBigIntColumnStats(std::nullopt, std::nullopt, std::nullopt);
    auto* s = static_cast<BigIntColumnStats*>(stats.get());
    uint64_t n = dv_len("n", 12);
    std::optional<int64_t> min, max;
    int64_t nulls = 0;
    for (uint64_t i = 0; i < n; i++) {
        if (dv_bool("null")) {
            nulls++;
            s->Collect(std::nullopt);
            continue;
        }
        int64_t v = dv_i64("v");
        if (!min || v < *min) min = v;
        if (!max || v > *max) max = v;
        s->Collect(v);
    }
    dv_assert(s->Min() == min && s->Max() == max, "least and greatest value collected");
    if (n) dv_assert(s->NullCount() == nulls, "number of nulls");
    dv_cover("history");
}
