// Grouping by overlapping ranges is the partition into chains of overlap.
#include "dv.h"
#include "paimon/common/utils/range_helper.h"
using namespace paimon;
struct Item {
    int64_t id, s, e;
};
static RangeHelper<Item> Helper() {
    return RangeHelper<Item>([](const Item& i) -> Result<int64_t> { return i.s; }, [](const Item& i) -> Result<int64_t> { return i.e; });
}
static int64_t Row(const char* n) {
    int64_t v = dv_i64(n);
#ifdef DV_NATIVE
    if (v >= 0) v %= 90;
#endif
    return v;
}
static std::vector<Item> Items(uint64_t n) {
    std::vector<Item> v;
    for (uint64_t i = 0; i < n; i++) {
        int64_t s = Row("s"), e = Row("e");
#ifdef DV_NATIVE
        if (s > e) std::swap(s, e);
        if (v.size() > 3 && e - s > 6) e = s + 6;
#endif
        dv_assume(s <= e);
        v.push_back(Item{static_cast<int64_t>(i), s, e});
    }
    return v;
}
constexpr uint64_t kMax = 24;
static void Group(uint64_t n) {
    std::vector<Item> in = Items(n);
    std::vector<Item> copy = in;
    auto r = Helper().MergeOverlappingRanges(std::move(copy));
    dv_assert(r.ok(), "grouping succeeds");
    const std::vector<std::vector<Item>>& g = r.value();
    // link[i][j]: a chain of overlaps leads from i to j
    bool link[kMax][kMax];
    for (uint64_t i = 0; i < n; i++)
        for (uint64_t j = 0; j < n; j++) link[i][j] = (in[i].s <= in[j].e) & (in[j].s <= in[i].e);
    for (uint64_t k = 0; k < n; k++)
        for (uint64_t i = 0; i < n; i++)
            for (uint64_t j = 0; j < n; j++) link[i][j] |= link[i][k] & link[k][j];
    uint64_t of[kMax];
    for (uint64_t i = 0; i < n; i++) of[i] = kMax;
    uint64_t seen = 0;
    for (uint64_t a = 0; a < g.size(); a++) {
        dv_assert(g[a].size() > 0, "no empty group");
        int64_t last = -1;
        for (const Item& x : g[a]) {
            dv_assert(x.id > last, "input order inside a group");
            last = x.id;
            seen++;
            for (uint64_t i = 0; i < n; i++)
                if (x.id == static_cast<int64_t>(i)) {
                    dv_assert(of[i] == kMax, "every item once");
                    of[i] = a;
                    dv_assert(x.s == in[i].s && x.e == in[i].e, "item unchanged");
                }
        }
    }
    dv_assert(seen == n, "all items");
    for (uint64_t i = 0; i < n; i++)
        for (uint64_t j = 0; j < n; j++) {
            dv_assert((of[i] == of[j]) == link[i][j], "same group exactly when linked by overlaps");
            if (of[i] < of[j]) dv_assert(in[i].e < in[j].s, "groups in ascending order");
        }
    dv_cover("grouped");
    if (n > 1 && g.size() == n) dv_cover("all apart");
    if (n > 1 && g.size() == 1) dv_cover("all together");
}
DV_ENTRY(group0) { Group(0); }
DV_ENTRY(group1) { Group(1); }
DV_ENTRY(group2) { Group(2); }
DV_ENTRY(group3) { Group(3); }
DV_ENTRY(search_group) { Group(dv_len("n", kMax)); }
static void AllSame(uint64_t n) {
    std::vector<Item> in = Items(n);
    if (n > 1 && dv_bool("same"))
        for (Item& x : in) x.s = in[0].s, x.e = in[0].e;
    auto r = Helper().AreAllRangesSame(in);
    bool same = true;
    for (uint64_t i = 0; i < n; i++)
        for (uint64_t j = 0; j < n; j++) same &= (in[i].s == in[j].s) & (in[i].e == in[j].e);
    dv_assert(r.ok() && r.value() == same, "all ranges equal");
    dv_cover("compared");
}
DV_ENTRY(same0) { AllSame(0); }
DV_ENTRY(same1) { AllSame(1); }
DV_ENTRY(same2) { AllSame(2); }
DV_ENTRY(same3) { AllSame(3); }
DV_ENTRY(same4) { AllSame(4); }
DV_ENTRY(search_same) { AllSame(dv_len("n", 20)); }
// an item whose range cannot be told makes the call fail
static void Failing(uint64_t n) {
    std::vector<Item> in = Items(n);
    uint64_t bad = dv_len("bad", n - 1);
    bool at_end = dv_bool("end");
    RangeHelper<Item> h(
        [bad, at_end](const Item& i) -> Result<int64_t> {
            if (!at_end && i.id == static_cast<int64_t>(bad)) return Status::Invalid("start");
            return i.s;
        },
        [bad, at_end](const Item& i) -> Result<int64_t> {
            if (at_end && i.id == static_cast<int64_t>(bad)) return Status::Invalid("end");
            return i.e;
        });
    auto r = h.MergeOverlappingRanges(std::move(in));
    dv_assert(!r.ok(), "failure reported");
    dv_cover("failed");
}
DV_ENTRY(failing2) { Failing(2); }
