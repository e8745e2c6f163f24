// Timestamps: exact conversions, order by instant, sub-millisecond part in range.
#include "dv.h"
#include "paimon/data/timestamp.h"
using namespace paimon;
static Timestamp Arbitrary(const char* m, const char* n, int64_t lo, int64_t hi) {
    int64_t ms = dv_in(m, lo, hi);
    int64_t ns = dv_in(n, 0, 999999);
    return Timestamp(ms, static_cast<int32_t>(ns));
}
static const int64_t kMaxMicroMs = INT64_C(9223372036854774);
static const int64_t kMaxNanoMs = INT64_C(9223372036853);
DV_ENTRY(parts) {
    int64_t ms = dv_i64("ms");
    int32_t ns = static_cast<int32_t>(dv_in("ns", 0, 999999));
    Timestamp a(ms, ns);
    dv_assert(a.GetMillisecond() == ms && a.GetNanoOfMillisecond() == ns, "parts kept");
    Timestamp b = Timestamp::FromEpochMillis(ms, ns);
    dv_assert(b.GetMillisecond() == ms && b.GetNanoOfMillisecond() == ns, "parts kept by the factory");
    Timestamp c = Timestamp::FromEpochMillis(ms);
    dv_assert(c.GetMillisecond() == ms && c.GetNanoOfMillisecond() == 0, "milliseconds only");
    Timestamp d = a.ToMillisTimestamp();
    dv_assert(d.GetMillisecond() == ms && d.GetNanoOfMillisecond() == 0, "cut to milliseconds");
    Timestamp z;
    dv_assert(z.GetMillisecond() == 0 && z.GetNanoOfMillisecond() == 0, "default is the epoch");
    dv_cover("parts");
}
DV_ENTRY(micro) {
    Timestamp a = Arbitrary("ms", "ns", -kMaxMicroMs, kMaxMicroMs);
    int64_t u = a.ToMicrosecond();
    // u is the number of whole microseconds not after the instant
    dv_assert(u == a.GetMillisecond() * 1000 + a.GetNanoOfMillisecond() / 1000, "microseconds");
    int64_t in_ms = u - a.GetMillisecond() * 1000;
    dv_assert(in_ms >= 0 && in_ms < 1000, "inside the millisecond");
    dv_assert(in_ms * 1000 <= a.GetNanoOfMillisecond() && a.GetNanoOfMillisecond() < in_ms * 1000 + 1000, "not after the instant");
    dv_cover("micro");
    if (a.GetMillisecond() < 0) dv_cover("before 1970");
}
DV_ENTRY(nano) {
    Timestamp a = Arbitrary("ms", "ns", -kMaxNanoMs, kMaxNanoMs);
    int64_t n = a.ToNanosecond();
    dv_assert(n == a.GetMillisecond() * 1000000 + a.GetNanoOfMillisecond(), "nanoseconds");
    dv_cover("nano");
    if (a.GetMillisecond() < 0) dv_cover("before 1970");
}
DV_ENTRY(order) {
    int64_t am = dv_i64("am"), bm = dv_i64("bm");
    int32_t an = static_cast<int32_t>(dv_in("an", 0, 999999)), bn = static_cast<int32_t>(dv_in("bn", 0, 999999));
    Timestamp a(am, an), b(bm, bn);
    bool before = am < bm || (am == bm && an < bn);
    bool same = am == bm && an == bn;
    dv_assert((a < b) == before, "earlier instant is smaller");
    dv_assert((a == b) == same, "equal exactly for the same instant");
    dv_assert(!(a < a) && a == a, "not before itself");
    dv_cover("order");
    if (am == bm && before) dv_cover("decided below the millisecond");
}
// comparing is comparing nanoseconds where these fit
DV_ENTRY(order_nano) {
    Timestamp a = Arbitrary("am", "an", -kMaxNanoMs, kMaxNanoMs), b = Arbitrary("bm", "bn", -kMaxNanoMs, kMaxNanoMs);
    dv_assert((a < b) == (a.ToNanosecond() < b.ToNanosecond()), "order of nanoseconds");
    dv_assert((a == b) == (a.ToNanosecond() == b.ToNanosecond()), "equality of nanoseconds");
    dv_cover("order");
}
DV_ENTRY(compact) {
    int32_t p = dv_i32("p");
    dv_assert(Timestamp::IsCompact(p) == (p <= 3), "compact up to precision three");
    dv_assert(Timestamp::MIN_PRECISION == 0 && Timestamp::MAX_PRECISION == 9 && Timestamp::MILLIS_PRECISION == 3 &&
                  Timestamp::DEFAULT_PRECISION == 6 && Timestamp::MAX_COMPACT_PRECISION == 3,
              "precisions");
    dv_cover("compact");
}
#ifdef DV_NATIVE
// the printed form, against a calendar computed here
DV_ENTRY(search_print) {
    int64_t k = dv_in("kind", 0, 3);
    int64_t ms = k == 0   ? dv_in("ms", INT64_C(-62135596800000), INT64_C(253402300799999))
                 : k == 1 ? dv_in("ms", -100000, 100000)
                 : k == 2 ? dv_in("sec", -62135596800, 253402300799) * 1000
                          : dv_in("day", -719162, 2932896) * 86400000 + dv_in("near", -2, 2);
    if (ms < INT64_C(-62135596800000) || ms > INT64_C(253402300799999)) return;
    int32_t ns = static_cast<int32_t>(dv_in("ns", 0, 999999));
    int64_t days = ms / 86400000, rest = ms % 86400000;
    if (rest < 0) rest += 86400000, days--;
    int64_t z = days + 719468, era = (z >= 0 ? z : z - 146096) / 146097;
    int64_t doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    int64_t y = yoe + era * 400, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
    int64_t d = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9;
    y += m <= 2;
    char buf[64];
    snprintf(buf, sizeof buf, "%04d-%02d-%02d %02d:%02d:%02d.%03d%06d", (int)y, (int)m, (int)d, (int)(rest / 3600000),
             (int)(rest / 60000 % 60), (int)(rest / 1000 % 60), (int)(rest % 1000), ns);
    dv_assert(Timestamp(ms, ns).ToString() == buf, "printed form");
    dv_cover("printed");
}
#endif
