// Results of global index queries: set operations, shifts, ranges and the serialized form.
#include "paimon/global_index/bitmap_global_index_result.h"
#include "paimon/global_index/bitmap_vector_search_global_index_result.h"
#include "paimon/memory/bytes.h"
#include "paimon/utils/range.h"
#include "rows.h"
#include "streams.h"
using namespace paimon;
using Res = std::shared_ptr<GlobalIndexResult>;
using Scored = BitmapVectorSearchGlobalIndexResult;
static const uint64_t kMaxId = std::numeric_limits<int64_t>::max();

static uint32_t Bits(float f) {
    uint32_t b;
    memcpy(&b, &f, 4);
    return b;
}
static float Score(const char* name) {
    uint32_t b = dv_u32(name);
    float f;
    memcpy(&f, &b, 4);
    return f;
}
// rows with an optional score each
struct Want {
    uint32_t mask = 0;
    bool scored = false;
    uint32_t score[8] = {};
};
// a result that is neither of the known kinds
struct Plain : GlobalIndexResult {
    RoaringBitmap64 rows;
    Result<bool> IsEmpty() const override { return rows.IsEmpty(); }
    Result<std::unique_ptr<Iterator>> CreateIterator() const override {
        return std::make_unique<BitmapGlobalIndexResult::Iterator>(&rows, rows.Begin());
    }
    Result<Res> AddOffset(int64_t) override { return Status::NotImplemented("offset"); }
    std::string ToString() const override { return std::string(); }
};
struct Ids : DvRows {
    // 0: bitmap, 1: scored, 2: another kind
    Res Make(int kind, Want* w) const {
        uint32_t any = Mask("rows");
        w->mask = 0;
        for (uint64_t i = 0; i < n; i++)
            if (any >> i & 1) w->mask |= 1u << i;
        return MakeOf(kind, w);
    }
    Res MakeOf(int kind, Want* w) const {
        RoaringBitmap64 b = DvRows::Make<RoaringBitmap64>(w->mask);
        if (kind == 0) return std::make_shared<BitmapGlobalIndexResult>([b]() -> Result<RoaringBitmap64> { return b; });
        if (kind == 2) {
            auto p = std::make_shared<Plain>();
            p->rows = b;
            return p;
        }
        w->scored = true;
        std::vector<float> scores;
        for (uint64_t i = 0; i < n; i++) {
            if (!(w->mask >> i & 1)) continue;
            float s = Score("score");
            w->score[i] = Bits(s);
            scores.push_back(s);
        }
        return std::make_shared<Scored>(std::move(b), std::move(scores));
    }
    void Is(const Res& r, const Want& w, const char* what) const {
        dv_assert(r != nullptr, "there is a result");
        if (!r) return;
        auto empty = r->IsEmpty();
        dv_assert(empty.ok() && empty.value() == (w.mask == 0), "empty exactly when no row is in it");
        auto it = r->CreateIterator();
        dv_assert(it.ok(), "rows can be listed");
        if (!it.ok()) return;
        for (uint64_t i = 0; i < n; i++) {
            if (!(w.mask >> i & 1)) continue;
            bool next = it.value()->HasNext();
            dv_assert(next, what);
            if (!next) return;
            dv_assert(static_cast<uint64_t>(it.value()->Next()) == id[i], what);
        }
        dv_assert(!it.value()->HasNext(), what);
        auto bitmap = std::dynamic_pointer_cast<BitmapGlobalIndexResult>(r);
        if (bitmap) {
            auto b = bitmap->GetBitmap();
            dv_assert(b.ok(), "rows can be listed");
            if (b.ok()) DvRows::Is(*b.value(), w.mask, what);
        }
        auto scored = std::dynamic_pointer_cast<Scored>(r);
        dv_assert(scored != nullptr || !w.scored, "the result still has scores");
        if (!scored || !w.scored) return;
        auto b = scored->GetBitmap();
        dv_assert(b.ok(), "rows can be listed");
        if (b.ok()) DvRows::Is(*b.value(), w.mask, what);
        const std::vector<float>& list = scored->GetScores();
        dv_assert(list.size() == Count(w.mask), "one score for each row");
        if (list.size() != Count(w.mask)) return;
        auto vit = scored->CreateVectorSearchIterator();
        dv_assert(vit.ok(), "rows can be listed");
        if (!vit.ok()) return;
        uint64_t k = 0;
        for (uint64_t i = 0; i < n; i++) {
            if (!(w.mask >> i & 1)) continue;
            dv_assert(Bits(list[k]) == w.score[i], "each row keeps its score");
            k++;
            bool next = vit.value()->HasNext();
            dv_assert(next, what);
            if (!next) return;
            auto p = vit.value()->NextWithScore();
            dv_assert(static_cast<uint64_t>(p.first) == id[i], what);
            dv_assert(Bits(p.second) == w.score[i], "each row is listed with its score");
        }
        dv_assert(!vit.value()->HasNext(), what);
    }
};

static void And(uint64_t n, int x, int y) {
    Ids u;
    u.Any("id", n, kMaxId);
    Want wx, wy;
    Res a = u.Make(x, &wx), b = u.Make(y, &wy);
    u.Is(a, wx, "rows of a result");
    auto r = a->And(b);
    dv_assert(r.ok(), "intersection is answered");
    if (!r.ok()) return;
    Want w;
    w.mask = wx.mask & wy.mask;
    w.scored = x == 1 && y == 0;
    for (uint64_t i = 0; i < n; i++) w.score[i] = wx.score[i];
    u.Is(r.value(), w, "exactly the rows of both");
    u.Is(a, wx, "the combined result keeps its rows");
    u.Is(b, wy, "the combined result keeps its rows");
    dv_cover("and");
}
static void Or(uint64_t n, int x, int y) {
    Ids u;
    u.Any("id", n, kMaxId);
    Want wx, wy;
    Res a = u.Make(x, &wx), b = u.Make(y, &wy);
    auto r = a->Or(b);
    if (x == 1 && y == 1 && (wx.mask & wy.mask)) {
        dv_assert(!r.ok(), "two scores for one row are refused");
        dv_cover("refused");
        return;
    }
    dv_assert(r.ok(), "union is answered");
    if (!r.ok()) return;
    Want w;
    w.mask = wx.mask | wy.mask;
    w.scored = x == 1 && y == 1;
    for (uint64_t i = 0; i < n; i++) w.score[i] = (wx.mask >> i & 1) ? wx.score[i] : wy.score[i];
    u.Is(r.value(), w, "exactly the rows of either");
    u.Is(a, wx, "the combined result keeps its rows");
    u.Is(b, wy, "the combined result keeps its rows");
    dv_cover("or");
}
#define KINDS(name, F, n)            \
    DV_ENTRY(name##_bb) { F(n, 0, 0); } \
    DV_ENTRY(name##_bs) { F(n, 0, 1); } \
    DV_ENTRY(name##_bp) { F(n, 0, 2); } \
    DV_ENTRY(name##_sb) { F(n, 1, 0); } \
    DV_ENTRY(name##_ss) { F(n, 1, 1); } \
    DV_ENTRY(name##_sp) { F(n, 1, 2); } \
    DV_ENTRY(name##_pb) { F(n, 2, 0); } \
    DV_ENTRY(name##_ps) { F(n, 2, 1); } \
    DV_ENTRY(name##_pp) { F(n, 2, 2); }
KINDS(and2, And, 2)
KINDS(or2, Or, 2)
KINDS(and3, And, 3)
KINDS(or3, Or, 3)

// a row set that cannot be read is an error
DV_ENTRY(broken) {
    Ids u;
    u.Any("id", 1, kMaxId);
    Want w;
    Res a = std::make_shared<BitmapGlobalIndexResult>([]() -> Result<RoaringBitmap64> { return Status::Invalid("unreadable"); });
    Res b = u.Make(0, &w), s = u.Make(1, &w), p = u.Make(2, &w);
    auto pool = std::make_shared<DvPool>();
    dv_assert(!a->IsEmpty().ok(), "not answered");
    dv_assert(!a->CreateIterator().ok(), "not answered");
    dv_assert(!a->ToRanges().ok(), "not answered");
    dv_assert(!GlobalIndexResult::Serialize(a, pool).ok(), "not answered");
    for (Res x : {b, s, p}) {
        for (int i = 0; i < 4; i++) {
            auto r = i == 0 ? a->And(x) : i == 1 ? a->Or(x) : i == 2 ? x->And(a) : x->Or(a);
            dv_assert(!r.ok() || !r.value()->IsEmpty().ok(), "unreadable rows are not guessed");
        }
    }
    auto o = a->AddOffset(0);
    dv_assert(!o.ok() || !o.value()->IsEmpty().ok(), "not answered");
    dv_cover("broken");
}

// rows `from` of the universe move onto rows `to`
static void Shift(int kind, const Ids& u, uint32_t from, uint32_t to, uint64_t by) {
    Want w;
    w.mask = from;
    Res a = u.MakeOf(kind, &w);
    auto r = a->AddOffset(static_cast<int64_t>(by));
    dv_assert(r.ok(), "shift is answered");
    if (!r.ok()) return;
    Want x = w;
    x.mask = to;
    uint64_t i = 0;
    for (uint64_t j = 0; j < u.n; j++) {
        if (!(to >> j & 1)) continue;
        while (!(from >> i & 1)) i++;
        x.score[j] = w.score[i++];
    }
    u.Is(r.value(), x, "every row moves by exactly the offset");
    u.Is(a, w, "the shifted result keeps its rows");
    dv_cover("shift");
}
// ids a < b moved by d: all orders of the four ids
static void Shifts(int kind, int order, bool back) {
    uint64_t a = dv_u64("a"), g = dv_u64("gap"), d = dv_u64("by");
#ifdef DV_NATIVE
    a &= kMaxId >> (dv_u8("wide") & 63);
    if (order == 1) g = d;
    if (order != 3 && d == 0) d = 1;
    if (order == 3) d = 0;
    if (g == 0) g = 1;
    g &= kMaxId, d &= kMaxId;
    g %= (kMaxId - a) / 2 + 1;
    d %= (kMaxId - a) / 2 + 1;
    if (order == 0 && d <= g) std::swap(d, g);
    if (order == 0 && d == g) d++;
    if (order == 1) g = d;
    if (order == 2 && d >= g) std::swap(d, g);
    if (order == 2 && d == g) g++;
#endif
    dv_assume(a <= kMaxId && g >= 1 && g <= kMaxId - a && d <= kMaxId - a - g);
    Ids u;
    uint32_t from = 0, to = 0;
    if (order == 0) {
        dv_assume(d > g);
        u.n = 4, u.id[0] = a, u.id[1] = a + g, u.id[2] = a + d, u.id[3] = a + g + d;
        from = 3, to = 12;
    } else if (order == 1) {
        dv_assume(d == g);
        u.n = 3, u.id[0] = a, u.id[1] = a + g, u.id[2] = a + g + d;
        from = 3, to = 6;
    } else if (order == 2) {
        dv_assume(d >= 1 && d < g);
        u.n = 4, u.id[0] = a, u.id[1] = a + d, u.id[2] = a + g, u.id[3] = a + g + d;
        from = 5, to = 10;
    } else {
        dv_assume(d == 0);
        u.n = 2, u.id[0] = a, u.id[1] = a + g;
        from = 3, to = 3;
    }
    u.Told();
    u.Use();
    if (back)
        Shift(kind, u, to, from, 0 - d);
    else
        Shift(kind, u, from, to, d);
}
#define SHIFTS(name, order, back)                         \
    DV_ENTRY(name##_b) { Shifts(0, order, back); }        \
    DV_ENTRY(name##_s) { Shifts(1, order, back); }
SHIFTS(shift_far, 0, false)
SHIFTS(shift_next, 1, false)
SHIFTS(shift_near, 2, false)
SHIFTS(shift_none, 3, false)
SHIFTS(shift_back_far, 0, true)
SHIFTS(shift_back_next, 1, true)
SHIFTS(shift_back_near, 2, true)
DV_ENTRY(shift_empty) {
    Ids u;
    u.Any("id", 1, kMaxId);
    Shift(0, u, 0, 0, dv_u64("by"));
    Shift(1, u, 0, 0, dv_u64("by"));
}

static void ToRanges(int kind, const Ids& u) {
    Want w;
    Res a = u.Make(kind, &w);
    auto r = a->ToRanges();
    dv_assert(r.ok(), "ranges are answered");
    if (!r.ok()) return;
    const std::vector<Range>& v = r.value();
    for (uint64_t i = 0; i < v.size(); i++) {
        dv_assert(v[i].from <= v[i].to, "ranges are not empty");
        dv_assert(i == 0 || v[i - 1].to < v[i].from, "ranges ascend without overlap");
    }
    int64_t x = dv_i64("x");
    bool in = false, want = false;
    for (uint64_t i = 0; i < v.size(); i++) in = in | ((v[i].from <= x) & (x <= v[i].to));
    for (uint64_t i = 0; i < u.n; i++) want = want | ((w.mask >> i & 1) & (u.id[i] == static_cast<uint64_t>(x)));
    dv_assert(in == want, "exactly the rows of the result are in the ranges");
    dv_cover("ranges");
}
#define TO_RANGES(k)                     \
    DV_ENTRY(to_ranges_any_##k) {        \
        Ids u;                           \
        u.Any("id", 3, kMaxId);          \
        ToRanges(k, u);                  \
    }                                    \
    DV_ENTRY(to_ranges_block_##k) {      \
        Ids u;                           \
        u.Block("id", 4, kMaxId);        \
        ToRanges(k, u);                  \
    }
TO_RANGES(0)
TO_RANGES(1)
TO_RANGES(2)

// inclusive ranges of at most 1000 rows, in any order, overlapping or not
static void FromRanges(uint64_t k, uint64_t width) {
    Ids u;
    std::vector<Range> v;
    uint64_t from[3], to[3];
    uint64_t x = dv_u64("x");
    for (uint64_t i = 0; i < k; i++) {
        from[i] = dv_u64("from"), to[i] = dv_u64("to");
#ifdef DV_NATIVE
        if (from[i] > kMaxId) from[i] &= kMaxId >> (from[i] & 31) * 2;
        if (to[i] > kMaxId || to[i] < from[i] || to[i] - from[i] >= width) to[i] = from[i] + to[i] % width;
        if (to[i] > kMaxId) to[i] = kMaxId;
#endif
        dv_assume(from[i] <= to[i] && to[i] <= kMaxId && to[i] - from[i] < width);
        v.emplace_back(static_cast<int64_t>(from[i]), static_cast<int64_t>(to[i]));
    }
#ifdef DV_NATIVE
    if (k && (x > kMaxId || x & 1)) x = ((x & 2) ? from[0] : to[k - 1]) + (x >> 2) % 3 - 1;
    if (x > kMaxId) x = kMaxId;
#endif
    dv_assume(x <= kMaxId);
    u.n = 1;
    u.id[0] = x;
    u.Use();
    auto r = BitmapGlobalIndexResult::FromRanges(v);
    dv_assert(r != nullptr, "there is a result");
    auto b = r->GetBitmap();
    dv_assert(b.ok(), "rows can be listed");
    if (!b.ok()) return;
    bool want = false;
    for (uint64_t i = 0; i < k; i++) want = want | ((from[i] <= x) & (x <= to[i]));
    dv_assert(b.value()->Contains(static_cast<int64_t>(x)) == want, "exactly the rows of the ranges");
    dv_cover("from ranges");
}
DV_ENTRY(from_ranges0) { FromRanges(0, 1000); }
DV_ENTRY(from_ranges1) { FromRanges(1, 1000); }
DV_ENTRY(from_ranges2) { FromRanges(2, 1000); }
DV_ENTRY(from_ranges3) { FromRanges(3, 1000); }

static void Stored(int kind, uint64_t n) {
    Ids u;
    u.Any("id", n, kMaxId);
    Want w;
    Res a = u.Make(kind, &w);
    auto pool = std::make_shared<DvPool>();
    auto bytes = GlobalIndexResult::Serialize(a, pool);
    if (kind == 2) {
        dv_assert(!bytes.ok(), "a result of another kind is refused");
        dv_cover("another kind");
        return;
    }
    dv_assert(bytes.ok(), "serialized");
    if (!bytes.ok()) return;
    uint64_t len = bytes.value()->size();
    auto back = GlobalIndexResult::Deserialize(bytes.value()->data(), len, pool);
    dv_assert(back.ok(), "a serialized result is accepted");
    if (!back.ok()) return;
    // without rows there is no score to keep
    if (w.mask == 0) w.scored = false;
    u.Is(back.value(), w, "reads back with the same rows");
    dv_cover("stored");
}
DV_ENTRY(stored_b) { Stored(0, 3); }
DV_ENTRY(stored_s) { Stored(1, 3); }
DV_ENTRY(stored_p) { Stored(2, 1); }
static void Cut(int kind, uint64_t n) {
    Ids u;
    u.Any("id", n, kMaxId);
    Want w;
    Res a = u.Make(kind, &w);
    auto pool = std::make_shared<DvPool>();
    auto bytes = GlobalIndexResult::Serialize(a, pool);
    dv_assert(bytes.ok(), "serialized");
    if (!bytes.ok()) return;
    uint64_t len = bytes.value()->size(), cut = dv_u64("cut");
#ifdef DV_NATIVE
    cut %= len;
#endif
    dv_assume(cut < len);
    char* p = static_cast<char*>(malloc(cut ? cut : 1));
    memcpy(p, bytes.value()->data(), cut);
    auto back = GlobalIndexResult::Deserialize(p, cut, pool);
    dv_assert(!back.ok(), "missing bytes are refused");
    free(p);
    dv_cover("cut");
}
DV_ENTRY(cut_b) { Cut(0, 2); }
DV_ENTRY(cut_s) { Cut(1, 2); }
// a header with any version and length
DV_ENTRY(header) {
    char p[12];
    for (char& c : p) c = static_cast<char>(dv_u8("byte"));
#ifdef DV_NATIVE
    if (p[8] & 1) p[0] = p[1] = p[2] = 0, p[3] = 1;
    if (p[9] & 1) p[4] |= static_cast<char>(0x80);
    if (p[4] >= 0 && p[4] != 0) p[4] = 0;
#endif
    auto pool = std::make_shared<DvPool>();
    int32_t version = 0;
    for (int i = 0; i < 4; i++) version = version << 8 | static_cast<uint8_t>(p[i]);
#ifdef DV_NATIVE
    dv_assume(p[4] <= 0);
#else
    dv_assume(version != 1 || p[4] < 0);
#endif
    auto back = GlobalIndexResult::Deserialize(p, 8, pool);
    dv_assert(!back.ok(), "missing bytes are refused");
    back = GlobalIndexResult::Deserialize(p, 12, pool);
    dv_assert((version == 1 && p[4] >= 0) || !back.ok(), "another version or a negative length is refused");
    dv_cover("header");
}
DV_ENTRY(search_history) {
    Ids u;
    u.Any("id", 6, kMaxId);
    Want wx, wy;
    int x = dv_u8("x") % 3, y = dv_u8("y") % 3;
    Res a = u.Make(x, &wx), b = u.Make(y, &wy);
    auto pool = std::make_shared<DvPool>();
    for (int i = 0; i < 3; i++) {
        bool both = dv_u8("op") & 1;
        auto r = both ? a->And(b) : a->Or(b);
        bool dup = !both && wx.scored && wy.scored && (wx.mask & wy.mask);
        dv_assert(r.ok() != dup, "answered");
        if (!r.ok()) return;
        Want w;
        w.mask = both ? wx.mask & wy.mask : wx.mask | wy.mask;
        bool bitmap = std::dynamic_pointer_cast<BitmapGlobalIndexResult>(b) != nullptr;
        w.scored = wx.scored && (both ? bitmap : wy.scored);
        for (uint64_t j = 0; j < u.n; j++) w.score[j] = (wx.mask >> j & 1) ? wx.score[j] : wy.score[j];
        u.Is(r.value(), w, "exactly the rows of the combination");
        auto bytes = GlobalIndexResult::Serialize(r.value(), pool);
        dv_assert(bytes.ok(), "serialized");
        if (!bytes.ok()) return;
        auto back = GlobalIndexResult::Deserialize(bytes.value()->data(), bytes.value()->size(), pool);
        dv_assert(back.ok(), "a serialized result is accepted");
        if (!back.ok()) return;
        if (w.mask == 0) w.scored = false;
        u.Is(back.value(), w, "reads back with the same rows");
        a = back.value(), wx = w;
        wy = Want();
        b = u.Make(dv_u8("y") % 3, &wy);
    }
}
