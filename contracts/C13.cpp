// Row-range algebra is set algebra: an arbitrary row is in the result exactly when it should be.
#include "dv.h"
#include "paimon/utils/range.h"
using namespace paimon;
#ifdef DV_NATIVE
// small values, values near the ends and anything between
static int64_t Row(const char* n) {
    int64_t v = dv_i64(n);
    uint64_t k = static_cast<uint64_t>(v) >> 61;
    if (k < 4) return static_cast<int64_t>(static_cast<uint64_t>(v) % 24);
    if (k == 4) return INT64_MAX - static_cast<int64_t>(static_cast<uint64_t>(v) % 12);
    return v;
}
#else
static int64_t Row(const char* n) { return dv_i64(n); }
#endif
static Range Arbitrary(const char* f, const char* t) {
    int64_t a = Row(f), b = Row(t);
#ifdef DV_NATIVE
    if (a > b) std::swap(a, b);
#endif
    dv_assume(a <= b);
    return Range(a, b);
}
static std::vector<Range> Ranges(const char* f, const char* t, uint64_t n) {
    std::vector<Range> v;
    for (uint64_t i = 0; i < n; i++) v.push_back(Arbitrary(f, t));
    return v;
}
// sorted and pairwise disjoint (as merging returns them)
static std::vector<Range> Sorted(const char* f, const char* t, uint64_t n) {
    std::vector<Range> v = Ranges(f, t, n);
#ifdef DV_NATIVE
    for (uint64_t i = 0; i < n; i++)
        for (uint64_t j = i + 1; j < n; j++)
            if (v[j].from < v[i].from) std::swap(v[i], v[j]);
#endif
    for (uint64_t i = 0; i + 1 < n; i++) dv_assume(v[i].to < v[i + 1].from);
    return v;
}
static bool In(const Range& r, int64_t x) { return (r.from <= x) & (x <= r.to); }
static bool In(const std::vector<Range>& v, int64_t x) {
    bool b = false;
    for (const Range& r : v) b |= In(r, x);
    return b;
}
static void Shape(const std::vector<Range>& v, bool adjacent) {
    for (uint64_t i = 0; i < v.size(); i++) dv_assert(v[i].from <= v[i].to, "no empty range");
    for (uint64_t i = 1; i < v.size(); i++) {
        dv_assert(v[i - 1].to < v[i].from, "sorted without overlap");
        if (adjacent) dv_assert(v[i - 1].to + 1 < v[i].from, "no adjacent ranges left");
    }
}
// members at an arbitrary row, and at all rows near an end in the compiled search
template <typename F>
static void EveryRow(const std::vector<Range>& v, F f) {
    f(Row("x"));
#ifdef DV_NATIVE
    for (const Range& r : v) {
        for (int d = -2; d <= 2; d++) {
            f(static_cast<int64_t>(static_cast<uint64_t>(r.from) + static_cast<uint64_t>(d)));
            f(static_cast<int64_t>(static_cast<uint64_t>(r.to) + static_cast<uint64_t>(d)));
        }
    }
#endif
}
DV_ENTRY(pair) {
    Range a = Arbitrary("af", "at"), b = Arbitrary("bf", "bt");
    dv_assert(a.from <= a.to, "range");
    auto i = Range::Intersection(a, b);
    bool meet = a.from <= b.to && b.from <= a.to;
    dv_assert(i.has_value() == meet, "intersection exists exactly when rows are shared");
    dv_assert(Range::HasIntersection(a, b) == meet, "has intersection");
    EveryRow({a, b}, [&](int64_t x) { dv_assert((i.has_value() && In(i.value(), x)) == (In(a, x) && In(b, x)), "rows of both"); });
    if (i.has_value()) {
        dv_assert(i.value().from <= i.value().to, "not empty");
        dv_cover("meet");
    } else {
        dv_cover("apart");
    }
    dv_assert((a == b) == (a.from == b.from && a.to == b.to), "equality");
    dv_assert((a < b) == (a.from < b.from || (a.from == b.from && a.to < b.to)), "order");
    dv_assert(a == a && !(a < a), "reflexive");
}
DV_ENTRY(count) {
    Range a = Arbitrary("af", "at");
    uint64_t n = static_cast<uint64_t>(a.to) - static_cast<uint64_t>(a.from) + 1;
    dv_assume(n >= 1 && n <= static_cast<uint64_t>(INT64_MAX));
    dv_assert(static_cast<uint64_t>(a.Count()) == n, "number of rows");
    dv_cover("count");
}
static void Merge(uint64_t n) {
    std::vector<Range> v = Ranges("f", "t", n);
    bool adj = dv_bool("adj");
    std::vector<Range> r = Range::SortAndMergeOverlap(v, adj);
    Shape(r, adj);
    dv_assert(r.size() <= n && (n == 0 || r.size() > 0), "at most as many ranges");
    EveryRow(v, [&](int64_t x) { dv_assert(In(r, x) == In(v, x), "exactly the rows of the inputs"); });
    if (!adj)
        for (const Range& g : r) {
            bool ends = false, starts = false;
            for (const Range& q : v) ends |= q.to == g.to, starts |= q.from == g.from;
            dv_assert(ends && starts, "ends of inputs");
        }
    dv_cover("merged");
    if (n == 0 || r.size() == n) dv_cover("kept apart");
}
DV_ENTRY(merge0) { Merge(0); }
DV_ENTRY(merge1) { Merge(1); }
DV_ENTRY(merge2) { Merge(2); }
DV_ENTRY(merge3) { Merge(3); }
DV_ENTRY(merge4) { Merge(4); }
DV_ENTRY(search_merge) { Merge(dv_len("n", 24)); }
static void Both(uint64_t n, uint64_t m) {
    std::vector<Range> a = Sorted("af", "at", n), b = Sorted("bf", "bt", m);
    std::vector<Range> r = Range::And(a, b);
    Shape(r, false);
    std::vector<Range> all = a;
    all.insert(all.end(), b.begin(), b.end());
    EveryRow(all, [&](int64_t x) { dv_assert(In(r, x) == (In(a, x) && In(b, x)), "exactly the rows of both"); });
    dv_cover("both");
}
DV_ENTRY(and02) { Both(0, 2), Both(2, 0); }
DV_ENTRY(and11) { Both(1, 1); }
DV_ENTRY(and12) { Both(1, 2); }
DV_ENTRY(and21) { Both(2, 1); }
DV_ENTRY(and22) { Both(2, 2); }
DV_ENTRY(and23) { Both(2, 3); }
#ifdef DV_NATIVE
// sorted disjoint ranges from gaps
static std::vector<Range> Spread(uint64_t n) {
    std::vector<Range> v;
    int64_t at = dv_bool("neg") ? -static_cast<int64_t>(dv_len("s", 40)) : static_cast<int64_t>(dv_len("s", 5));
    for (uint64_t i = 0; i < n; i++) {
        int64_t f = at + static_cast<int64_t>(dv_len("gap", 5)), t = f + static_cast<int64_t>(dv_len("len", 6));
        if (i + 1 == n && dv_len("top", 9) == 0) t = INT64_MAX;
        v.push_back(Range(f, t));
        if (t == INT64_MAX) break;
        at = t + 1;
    }
    return v;
}
DV_ENTRY(search_and) {
    std::vector<Range> a = Spread(dv_len("n", 12)), b = Spread(dv_len("m", 12));
    std::vector<Range> r = Range::And(a, b);
    Shape(r, false);
    for (int64_t x = -60; x < 200; x++) dv_assert(In(r, x) == (In(a, x) && In(b, x)), "exactly the rows of both");
    for (int64_t x = INT64_MAX - 3;; x++) {
        dv_assert(In(r, x) == (In(a, x) && In(b, x)), "exactly the rows of both");
        if (x == INT64_MAX) break;
    }
}
#endif
static void Minus(uint64_t n) {
    Range a = Arbitrary("af", "at");
    std::vector<Range> v = Ranges("f", "t", n);
    std::vector<Range> r = a.Exclude(v);
    Shape(r, false);
    std::vector<Range> all = v;
    all.push_back(a);
    EveryRow(all, [&](int64_t x) { dv_assert(In(r, x) == (In(a, x) && !In(v, x)), "exactly the rows not excluded"); });
    if (r.size() > 0) dv_cover("rows left");
    if (n > 0 && r.size() == 0) dv_cover("nothing left");
}
DV_ENTRY(exclude0) { Minus(0); }
DV_ENTRY(exclude1) { Minus(1); }
DV_ENTRY(exclude2) { Minus(2); }
DV_ENTRY(exclude3) { Minus(3); }
DV_ENTRY(search_exclude) { Minus(dv_len("n", 20)); }
