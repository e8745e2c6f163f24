// Insertion-ordered maps and metrics against plain lists of entries.
#include <cstdint>
#include "dv.h"
#include "paimon/common/metrics/metrics_impl.h"
#include "paimon/common/utils/linked_hash_map.h"
#include "paimon/common/utils/long_counter.h"
#include "paimon/result.h"
using namespace paimon;
constexpr uint64_t kMax = 16;
template <typename K>
struct Entries {
    uint64_t n = 0;
    K key[kMax];
    int64_t value[kMax];
    uint64_t Find(const K& k) const {
        for (uint64_t i = 0; i < n; i++)
            if (key[i] == k) return i;
        return n;
    }
    void Put(const K& k, int64_t v, bool replace) {
        uint64_t i = Find(k);
        if (i == n) {
            key[n] = k;
            value[n++] = v;
        } else if (replace) {
            value[i] = v;
        }
    }
    void Erase(uint64_t i) {
        for (uint64_t j = i; j + 1 < n; j++) {
            key[j] = key[j + 1];
            value[j] = value[j + 1];
        }
        n--;
    }
};
template <typename K>
static void Same(const LinkedHashMap<K, int64_t>& m, const Entries<K>& e) {
    dv_assert(m.size() == e.n && m.empty() == (e.n == 0), "number of entries");
    uint64_t i = 0;
    for (const auto& kv : m) {
        dv_assert(i < e.n, "no entry beyond the ones put");
        if (i >= e.n) return;
        dv_assert(kv.first == e.key[i], "order of first insertion");
        dv_assert(kv.second == e.value[i], "value put last");
        i++;
    }
    dv_assert(i == e.n, "every entry is visited");
    for (i = 0; i < e.n; i++) {
        auto it = m.find(e.key[i]);
        dv_assert(it != m.end(), "entry is found");
        if (it != m.end()) dv_assert(it->first == e.key[i] && it->second == e.value[i], "lookup gives the value put last");
    }
}
template <typename K>
static void Absent(const LinkedHashMap<K, int64_t>& m, const Entries<K>& e, const K& other) {
    if (e.Find(other) == e.n) dv_assert(m.find(other) == m.end(), "nothing is found for other keys");
}
template <typename K>
static void Keys(const LinkedHashMap<K, int64_t>& m, const Entries<K>& e) {
    std::vector<K> v = m.key_vec();
    dv_assert(v.size() == e.n, "one key per entry");
    for (uint64_t i = 0; i < e.n && i < v.size(); i++) dv_assert(v[i] == e.key[i], "keys in order of insertion");
    auto s = m.key_set();
    dv_assert(s.size() == e.n, "one key per entry in the set");
    for (uint64_t i = 0; i < e.n; i++) dv_assert(s.count(e.key[i]) == 1, "every key is in the set");
}
template <typename K>
static void Apply(LinkedHashMap<K, int64_t>* m, Entries<K>* e, int op, const K& k, int64_t v) {
    uint64_t at = e->Find(k);
    if (op == 0) {
        auto it = m->insert(k, v);
        e->Put(k, v, false);
        dv_assert(it->first == k && it->second == e->value[e->Find(k)], "insert gives the entry");
    } else if (op == 1) {
        auto it = m->insert_or_assign(k, v);
        e->Put(k, v, true);
        dv_assert(it->first == k && it->second == v, "insert_or_assign gives the entry");
    } else if (op == 2) {
        (*m)[k] = v;
        e->Put(k, v, true);
    } else if (op == 3) {
        int64_t got = (*m)[k];
        dv_assert(got == (at < e->n ? e->value[at] : 0), "operator[] gives the value or a new zero");
        e->Put(k, 0, false);
    } else {
        auto it = m->erase(k);
        if (at == e->n) {
            dv_assert(it == m->end(), "erasing an absent key changes nothing");
        } else {
            e->Erase(at);
            dv_assert(at == e->n ? it == m->end() : (it != m->end() && it->first == e->key[at]), "erase gives the next entry");
        }
    }
}
// n arbitrary entries, then one operation
static void Step(uint64_t n, int op) {
    LinkedHashMap<int64_t, int64_t> m;
    Entries<int64_t> e;
    for (uint64_t i = 0; i < n; i++) {
        int64_t k = dv_i64("k"), v = dv_i64("v");
        dv_assume(e.Find(k) == e.n);
        m.insert(k, v);
        e.Put(k, v, false);
    }
    int64_t k = dv_i64("key"), v = dv_i64("value");
#ifdef DV_NATIVE
    if (n && dv_bool("old")) k = e.key[dv_u8("which") % n];
#endif
    Apply(&m, &e, op, k, v);
    Same(m, e);
    Absent(m, e, dv_i64("other"));
    if (op == 4) Absent(m, e, k);
    dv_cover("step");
}
static void Copies(uint64_t n) {
    LinkedHashMap<int64_t, int64_t> m, other;
    Entries<int64_t> e, e2;
    for (uint64_t i = 0; i < n; i++) {
        int64_t k = dv_i64("k"), v = dv_i64("v");
        m.insert_or_assign(k, v);
        e.Put(k, v, true);
    }
    Keys(m, e);
    LinkedHashMap<int64_t, int64_t> c(m);
    dv_assert(c == m && !(c != m), "a copy is equal");
    other.insert(7, 8);
    other = m;
    dv_assert(other == m, "an assigned map is equal");
    // copies are independent in both directions
    Entries<int64_t> a = e, b = e;
    int64_t k = dv_i64("key"), v = dv_i64("value");
    Apply(&c, &a, 2, k, v);
    Apply(&other, &b, 4, k, v);
    Same(m, e);
    Same(c, a);
    Same(other, b);
    bool same = a.n == b.n;
    for (uint64_t i = 0; i < a.n && same; i++) same = a.key[i] == b.key[i] && a.value[i] == b.value[i];
    dv_assert((c == other) == same, "maps are equal exactly when entries and order agree");
    dv_cover("copies");
}
#define STEP(n, op) DV_ENTRY(step##n##_##op) { Step(n, op); }
#define STEPS(op) STEP(0, op) STEP(1, op) STEP(2, op) STEP(3, op)
STEPS(0) STEPS(1) STEPS(2) STEPS(3) STEPS(4)
DV_ENTRY(copies0) { Copies(0); }
DV_ENTRY(copies1) { Copies(1); }
DV_ENTRY(copies2) { Copies(2); }
template <typename K, typename F>
static void History(uint64_t n, F key) {
    LinkedHashMap<K, int64_t> m;
    Entries<K> e;
    for (uint64_t i = 0; i < n; i++) {
        int op = dv_u8("op") % 5;
        K k = key();
        Apply(&m, &e, op, k, dv_i64("v"));
        if (op == 4) Absent(m, e, k);
    }
    Same(m, e);
    Keys(m, e);
    LinkedHashMap<K, int64_t> c(m);
    Same(c, e);
    dv_cover("history");
}
DV_ENTRY(history2) { History<int64_t>(2, [] { return dv_i64("k"); }); }
DV_ENTRY(text2) {
    History<std::string>(2, [] {
        char* p = static_cast<char*>(dv_alloc("k", 2, 1));
        return std::string(p, 2);
    });
}
DV_ENTRY(search_history) { History<int64_t>(dv_len("n", kMax), [] { return static_cast<int64_t>(dv_u8("k") % 6); }); }
DV_ENTRY(search_text) {
    History<std::string>(dv_len("n", kMax), [] {
        uint64_t n = dv_u8("len") % 3;
        char* p = static_cast<char*>(dv_alloc("k", 3, 1));
        for (int i = 0; i < 3; i++) p[i] = static_cast<char>('a' + (p[i] & 1));
        return std::string(p, n);
    });
}
// counters
static std::string Name(const char* n) {
    char* p = static_cast<char*>(dv_alloc(n, 1, 1));
#ifdef DV_NATIVE
    if (dv_bool("few")) p[0] = static_cast<char>('a' + (p[0] & 3));
#endif
    return std::string(p, 1);
}
using Counters = Entries<std::string>;
static void Is(const MetricsImpl& m, const Counters& e) {
    auto all = m.GetAllCounters();
    dv_assert(all.size() == e.n, "number of counters");
    for (uint64_t i = 0; i < e.n; i++) {
        auto r = m.GetCounter(e.key[i]);
        dv_assert(r.ok() && r.value() == static_cast<uint64_t>(e.value[i]), "value of a counter");
        auto it = all.find(e.key[i]);
        dv_assert(it != all.end() && it->second == static_cast<uint64_t>(e.value[i]), "value among all counters");
    }
}
static void Fill(MetricsImpl* m, Counters* e, uint64_t n) {
    for (uint64_t i = 0; i < n; i++) {
        std::string k = Name("name");
        int64_t v = dv_i64("v");
        m->SetCounter(k, static_cast<uint64_t>(v));
        e->Put(k, v, true);
    }
}
static void Merge(uint64_t n, uint64_t n2, int kind) {
    auto a = std::make_shared<MetricsImpl>(), b = std::make_shared<MetricsImpl>();
    Counters ea, eb;
    Fill(a.get(), &ea, n);
    Fill(b.get(), &eb, n2);
    if (kind == 0) {
        a->Merge(b);
        for (uint64_t i = 0; i < eb.n; i++) {
            uint64_t j = ea.Find(eb.key[i]);
            if (j < ea.n) ea.value[j] = static_cast<int64_t>(static_cast<uint64_t>(ea.value[j]) + static_cast<uint64_t>(eb.value[i]));
            else ea.Put(eb.key[i], eb.value[i], true);
        }
    } else {
        a->Overwrite(b);
        ea = eb;
    }
    Is(*a, ea);
    Is(*b, eb);
    a->Merge(nullptr);
    a->Overwrite(nullptr);
    a->Overwrite(a);
    a->Merge(a);
    Is(*a, ea);
    std::string other = Name("other");
    if (ea.Find(other) == ea.n) dv_assert(!a->GetCounter(other).ok(), "unknown counters are an error");
    dv_cover("merged");
}
DV_ENTRY(merge10) { Merge(1, 0, 0); }
DV_ENTRY(merge01) { Merge(0, 1, 0); }
DV_ENTRY(merge11) { Merge(1, 1, 0); }
DV_ENTRY(merge12) { Merge(1, 2, 0); }
DV_ENTRY(merge21) { Merge(2, 1, 0); }
DV_ENTRY(merge22) { Merge(2, 2, 0); }
DV_ENTRY(overwrite10) { Merge(1, 0, 1); }
DV_ENTRY(overwrite12) { Merge(1, 2, 1); }
DV_ENTRY(overwrite21) { Merge(2, 1, 1); }
struct Reader {
    std::shared_ptr<Metrics> m;
    std::shared_ptr<Metrics> GetReaderMetrics() const { return m; }
};
DV_ENTRY(collect) {
    auto a = std::make_shared<MetricsImpl>(), b = std::make_shared<MetricsImpl>();
    Counters ea, eb;
    Fill(a.get(), &ea, 1);
    Fill(b.get(), &eb, 1);
    std::vector<std::shared_ptr<Reader>> readers;
    readers.push_back(std::make_shared<Reader>(Reader{a}));
    readers.push_back(nullptr);
    readers.push_back(std::make_shared<Reader>(Reader{nullptr}));
    readers.push_back(std::make_shared<Reader>(Reader{b}));
    auto r = MetricsImpl::CollectReadMetrics(readers);
    Counters sum = ea;
    uint64_t j = sum.Find(eb.key[0]);
    if (j < sum.n) sum.value[j] = static_cast<int64_t>(static_cast<uint64_t>(sum.value[j]) + static_cast<uint64_t>(eb.value[0]));
    else sum.Put(eb.key[0], eb.value[0], true);
    Is(*static_cast<MetricsImpl*>(r.get()), sum);
    dv_cover("collected");
}
DV_ENTRY(counter) {
    int64_t a = dv_i64("a"), b = dv_i64("b"), c = dv_i64("c");
    // sums that fit
    dv_assume(a >= -(INT64_C(1) << 60) && a <= (INT64_C(1) << 60) && b >= -(INT64_C(1) << 60) && b <= (INT64_C(1) << 60));
    dv_assume(c >= -(INT64_C(1) << 60) && c <= (INT64_C(1) << 60));
    LongCounter x(a), y;
    dv_assert(x.GetValue() == a && y.GetValue() == 0, "initial value");
    x.Add(b);
    dv_assert(x.GetValue() == a + b, "value added");
    y.Add(c);
    x.Merge(y);
    dv_assert(x.GetValue() == a + b + c && y.GetValue() == c, "counter merged");
    x.Reset();
    dv_assert(x.GetValue() == 0, "counter reset");
    dv_cover("counter");
}
DV_ENTRY(search_metrics) { Merge(dv_len("n1", 6), dv_len("n2", 6), dv_u8("kind") % 2); }
