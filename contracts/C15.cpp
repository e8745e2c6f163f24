// Ordered bin packing.
#include "dv.h"
#include "paimon/common/utils/bin_packing.h"
using namespace paimon;
struct Item {
    int64_t id, w;
};
static void Pack(uint64_t n, int64_t max) {
    std::vector<Item> in;
    int64_t sum = 0;
    for (uint64_t i = 0; i < n; i++) {
        int64_t w = dv_in("w", 0, max);
        dv_assume(w <= INT64_MAX - sum);
        sum += w;
        in.push_back(Item{static_cast<int64_t>(i), w});
    }
    int64_t target = dv_i64("target");
#ifdef DV_NATIVE
    if (max < 1000) target = static_cast<int64_t>(static_cast<uint64_t>(target) % 60) - 2;
#endif
    std::vector<Item> copy = in;
    std::vector<std::vector<Item>> r = BinPacking::PackForOrdered<Item>(std::move(copy), [](const Item& x) { return x.w; }, target);
    int64_t next = 0;
    for (uint64_t b = 0; b < r.size(); b++) {
        dv_assert(r[b].size() > 0, "no empty bin");
        int64_t weight = 0;
        for (const Item& x : r[b]) {
            dv_assert(x.id == next, "every item once and in order");
            next++;
            weight += x.w;
        }
        dv_assert(weight <= target || r[b].size() == 1, "heavier than the target only with a single item");
        if (b + 1 < r.size()) dv_assert(r[b + 1].size() > 0 && weight + r[b + 1][0].w > target, "closed only when the next item would not fit");
    }
    dv_assert(next == static_cast<int64_t>(n), "all items");
    dv_cover("packed");
    if (n > 1 && r.size() == 1) dv_cover("one bin");
    if (n > 1 && r.size() == n) dv_cover("all apart");
}
DV_ENTRY(pack0) { Pack(0, INT64_MAX); }
DV_ENTRY(pack1) { Pack(1, INT64_MAX); }
DV_ENTRY(pack2) { Pack(2, INT64_MAX); }
DV_ENTRY(pack3) { Pack(3, INT64_MAX); }
DV_ENTRY(pack4) { Pack(4, INT64_MAX); }
DV_ENTRY(pack6) { Pack(6, INT64_MAX); }
DV_ENTRY(search_small) { Pack(dv_len("n", 40), 20); }
DV_ENTRY(search_large) { Pack(dv_len("n", 8), INT64_MAX / 8); }
