// Answers of file indexes and their combination.
#include "paimon/file_index/bitmap_index_result.h"
#include "paimon/file_index/file_index_reader.h"
#include "paimon/file_index/file_index_result.h"
#include "paimon/predicate/literal.h"
#include "rows.h"
using namespace paimon;
using Answer = std::shared_ptr<FileIndexResult>;

// a row set: all rows, or exactly some of the ids of the universe
struct Rows {
    bool all;
    uint32_t some;
};
static const uint64_t N = 3;
static uint32_t Full() { return (1u << N) - 1; }
static Rows Both(Rows a, Rows b) { return a.all ? b : b.all ? a : Rows{false, a.some & b.some}; }
static Rows Any(Rows a, Rows b) { return a.all || b.all ? Rows{true, 0} : Rows{false, a.some | b.some}; }

struct Universe : DvRows {
    Universe() { DvRows::Any("id", N, std::numeric_limits<int32_t>::max()); }
    // 0: keep all, 1: skip all, 2: bitmap of rows
    Answer Make(int kind, Rows* r) const {
        if (kind == 0) {
            *r = {true, 0};
            return FileIndexResult::Remain();
        }
        if (kind == 1) {
            *r = {false, 0};
            return FileIndexResult::Skip();
        }
        *r = {false, Mask("rows")};
        RoaringBitmap32 b = DvRows::Make<RoaringBitmap32>(r->some);
        return std::make_shared<BitmapIndexResult>([b]() -> Result<RoaringBitmap32> { return b; });
    }
    void Denotes(const Answer& a, Rows r, const char* what) const {
        dv_assert(a != nullptr, "there is an answer");
        if (!a) return;
        Result<bool> remain = a->IsRemain();
        dv_assert(remain.ok(), "the answer can be evaluated");
        if (!remain.ok()) return;
        dv_assert(remain.value() == (r.all || r.some != 0), "nothing remains exactly when the row set is empty");
        auto bitmap = std::dynamic_pointer_cast<BitmapIndexResult>(a);
        if (bitmap) {
            auto rows = bitmap->GetBitmap();
            dv_assert(rows.ok(), "the rows can be listed");
            if (!rows.ok()) return;
            dv_assert(!r.all, what);
            Exactly(*rows.value(), r.some, what);
        } else {
            dv_assert(r.all || r.some == 0, what);
        }
    }
};
static Answer Op(int op, const Answer& a, const Answer& b) {
    auto r = op == 0 ? a->And(b) : a->Or(b);
    dv_assert(r.ok(), "the combination is answered");
    return r.ok() ? r.value() : nullptr;
}
static Rows Spec(int op, Rows a, Rows b) { return op == 0 ? Both(a, b) : Any(a, b); }

static void Pair(int op, int x, int y) {
    Universe u;
    Rows rx, ry;
    Answer a = u.Make(x, &rx), b = u.Make(y, &ry);
    u.Denotes(a, rx, "row set of an answer");
    Answer c = Op(op, a, b), d = Op(op, b, a);
    u.Denotes(c, Spec(op, rx, ry), "exactly the rows of the combination");
    u.Denotes(d, Spec(op, rx, ry), "exactly the rows of the combination in the other order");
    u.Denotes(a, rx, "the combined answer keeps its rows");
    u.Denotes(b, ry, "the combined answer keeps its rows");
    u.Denotes(Op(op, a, a), rx, "combined with itself");
    dv_cover("pair");
}
static void Nest(int p, int q, int x, int y, int z) {
    Universe u;
    Rows rx, ry, rz;
    Answer a = u.Make(x, &rx), b = u.Make(y, &ry), c = u.Make(z, &rz);
    Answer left = Op(q, Op(p, a, b), c), right = Op(p, a, Op(q, b, c));
    u.Denotes(left, Spec(q, Spec(p, rx, ry), rz), "exactly the rows of (a . b) . c");
    u.Denotes(right, Spec(p, rx, Spec(q, ry, rz)), "exactly the rows of a . (b . c)");
    dv_cover("nest");
}
#define PAIRS(op, name)                                  \
    DV_ENTRY(name##_rr) { Pair(op, 0, 0); }              \
    DV_ENTRY(name##_rs) { Pair(op, 0, 1); }              \
    DV_ENTRY(name##_rb) { Pair(op, 0, 2); }              \
    DV_ENTRY(name##_ss) { Pair(op, 1, 1); }              \
    DV_ENTRY(name##_sb) { Pair(op, 1, 2); }              \
    DV_ENTRY(name##_bb) { Pair(op, 2, 2); }
PAIRS(0, and)
PAIRS(1, or)
DV_ENTRY(nest_and_or) { Nest(0, 1, 2, 2, 2); }
DV_ENTRY(nest_or_and) { Nest(1, 0, 2, 2, 2); }
DV_ENTRY(nest_and_and) { Nest(0, 0, 2, 2, 2); }
DV_ENTRY(nest_or_or) { Nest(1, 1, 2, 2, 2); }
DV_ENTRY(nest_mixed1) { Nest(0, 1, 2, 0, 2); }
DV_ENTRY(nest_mixed2) { Nest(1, 0, 2, 1, 2); }

// a bitmap that cannot be read is an error, never an answer
static void Broken(int op, int y) {
    Universe u;
    Rows ry;
    Answer a = std::make_shared<BitmapIndexResult>([]() -> Result<RoaringBitmap32> { return Status::Invalid("unreadable"); });
    Answer b = u.Make(y, &ry);
    dv_assert(!a->IsRemain().ok(), "no answer from an unreadable bitmap");
    auto r = op == 0 ? a->And(b) : a->Or(b);
    auto s = op == 0 ? b->And(a) : b->Or(a);
    // rows decided without the bitmap may be answered
    bool decided = (op == 0 && y == 1) || (op == 1 && y == 0);
    dv_assert(!r.ok() || !r.value()->IsRemain().ok() || decided, "unreadable rows are not guessed");
    dv_assert(!s.ok() || !s.value()->IsRemain().ok() || decided, "unreadable rows are not guessed");
    dv_cover("broken");
}
DV_ENTRY(broken_and_r) { Broken(0, 0); }
DV_ENTRY(broken_and_s) { Broken(0, 1); }
DV_ENTRY(broken_and_b) { Broken(0, 2); }
DV_ENTRY(broken_or_r) { Broken(1, 0); }
DV_ENTRY(broken_or_s) { Broken(1, 1); }
DV_ENTRY(broken_or_b) { Broken(1, 2); }

// literals stand for themselves: the reader below only looks at their places
struct Literals {
    alignas(Literal) char mem[4 * sizeof(Literal)] = {};
    alignas(std::vector<Literal>) char vec[sizeof(std::vector<Literal>)];
    explicit Literals(uint64_t n) {
        auto** p = reinterpret_cast<Literal**>(vec);
        p[0] = reinterpret_cast<Literal*>(mem);
        p[1] = p[2] = p[0] + n;
    }
    const std::vector<Literal>& All() const { return *reinterpret_cast<const std::vector<Literal>*>(vec); }
    const Literal& At(uint64_t i) const { return reinterpret_cast<const Literal*>(mem)[i]; }
    uint64_t Index(const Literal& l) const { return &l - reinterpret_cast<const Literal*>(mem); }
};
struct Reader : FileIndexReader {
    const Literals* lits;
    Answer equal[4], differ[4];
    Result<Answer> VisitEqual(const Literal& l) override { return equal[lits->Index(l)]; }
    Result<Answer> VisitNotEqual(const Literal& l) override { return differ[lits->Index(l)]; }
};
static void Lists(uint64_t n, int x, int y, int z) {
    Universe u;
    Literals l(n);
    Reader r;
    r.lits = &l;
    Rows in{false, 0}, out{true, 0};
    int kinds[3] = {x, y, z};
    for (uint64_t i = 0; i < n; i++) {
        Rows e, d;
        r.equal[i] = u.Make(kinds[i], &e);
        r.differ[i] = u.Make(kinds[i], &d);
        in = Any(in, e);
        out = Both(out, d);
    }
    auto a = r.VisitIn(l.All());
    dv_assert(a.ok(), "answered");
    if (a.ok()) u.Denotes(a.value(), in, "rows equal to some of the values");
    auto b = r.VisitNotIn(l.All());
    dv_assert(b.ok(), "answered");
    if (b.ok()) u.Denotes(b.value(), out, "rows different from all of the values");
    dv_cover("lists");
}
DV_ENTRY(lists0) { Lists(0, 0, 0, 0); }
DV_ENTRY(lists1_b) { Lists(1, 2, 0, 0); }
DV_ENTRY(lists1_r) { Lists(1, 0, 0, 0); }
DV_ENTRY(lists2_bb) { Lists(2, 2, 2, 0); }
DV_ENTRY(lists2_sb) { Lists(2, 1, 2, 0); }
DV_ENTRY(lists2_br) { Lists(2, 2, 0, 0); }
DV_ENTRY(lists3_bbb) { Lists(3, 2, 2, 2); }
DV_ENTRY(lists3_bsb) { Lists(3, 2, 1, 2); }
DV_ENTRY(lists3_rbs) { Lists(3, 0, 2, 1); }

// what an index does not know keeps every row
DV_ENTRY(defaults) {
    Universe u;
    Literals l(1);
    FileIndexReader r;
    const Literal& x = l.At(0);
    Rows all{true, 0};
    Result<Answer> a[13] = {r.VisitIsNotNull(), r.VisitIsNull(), r.VisitEqual(x), r.VisitNotEqual(x), r.VisitLessThan(x), r.VisitLessOrEqual(x),
                            r.VisitGreaterThan(x), r.VisitGreaterOrEqual(x), r.VisitIn(l.All()), r.VisitNotIn(l.All()), r.VisitStartsWith(x),
                            r.VisitEndsWith(x), r.VisitContains(x)};
    for (auto& v : a) {
        dv_assert(v.ok(), "answered");
        if (v.ok()) u.Denotes(v.value(), all, "every row is kept");
    }
    dv_cover("defaults");
}
DV_ENTRY(search_nest) {
    Universe u;
    std::vector<Answer> as;
    std::vector<Rows> rs;
    uint64_t n = 2 + dv_len("n", 4);
    for (uint64_t i = 0; i < n; i++) {
        Rows r;
        as.push_back(u.Make(dv_u8("kind") % 4 > 2 ? 2 : dv_u8("kind") % 3, &r));
        rs.push_back(r);
    }
    uint64_t m = dv_len("m", 6);
    for (uint64_t i = 0; i < m; i++) {
        uint64_t p = dv_u8("p") % as.size(), q = dv_u8("q") % as.size();
        int op = dv_u8("op") & 1;
        as.push_back(Op(op, as[p], as[q]));
        rs.push_back(Spec(op, rs[p], rs[q]));
    }
    for (uint64_t i = 0; i < as.size(); i++) u.Denotes(as[i], rs[i], "exactly the rows of the combination");
}
