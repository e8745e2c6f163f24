// Trusted model of the CRoaring classes for the extracted code: a set of integers, followed exactly on
// the row ids of a universe the contract chooses (dv_universe, strictly ascending).  Ids outside of it
// are only known to be possible (more); asking for anything that depends on them fails an obligation.
// The serialized form is some form whose length depends on the content and that reads back.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <limits>
#include <stdexcept>
#include <string>
#include <utility>

extern uint64_t dv_universe[8];
extern uint32_t dv_universe_n;
extern "C" void dv_assert(bool c, const char* label);

namespace paimon::roaring {
// members of the universe in [lo, hi]
inline uint32_t DvBetween(uint64_t lo, uint64_t hi) {
    uint32_t r = 0;
    for (uint32_t i = 0; i < dv_universe_n; i++)
        r |= static_cast<uint32_t>((dv_universe[i] >= lo) & (dv_universe[i] <= hi)) << i;
    return r;
}
inline uint64_t DvCount(uint32_t m) {
    uint64_t r = 0;
    for (uint32_t i = 0; i < dv_universe_n; i++) r += m >> i & 1;
    return r;
}
inline uint64_t DvFirst(uint32_t m, uint64_t none) {
    uint64_t r = none;
    for (uint32_t i = dv_universe_n; i-- > 0;) {
        uint64_t b = 0 - static_cast<uint64_t>(m >> i & 1);
        r = (dv_universe[i] & b) | (r & ~b);
    }
    return r;
}

template <typename T, typename S>
class DvSet;

template <typename T, typename S>
class DvSetIterator {
 public:
    typedef std::forward_iterator_tag iterator_category;
    typedef T* pointer;
    typedef T& reference;
    typedef T& reference_type;
    typedef T value_type;
    typedef std::make_signed_t<T> difference_type;
    typedef DvSetIterator type_of_iterator;
    DvSetIterator(const S& parent, bool exhausted = false) : p(&parent), rest(exhausted ? 0 : parent.All()) {}
    T operator*() const { return static_cast<T>(DvFirst(rest, std::numeric_limits<T>::max())); }
    DvSetIterator& operator++() {
        rest &= rest - 1;
        return *this;
    }
    DvSetIterator operator++(int) {
        auto r = *this;
        rest &= rest - 1;
        return r;
    }
    void equalorlarger(T v) { rest = p->All() & DvBetween(v, std::numeric_limits<T>::max()); }
    bool move(const T& v) {
        equalorlarger(v);
        return rest != 0;
    }
    bool operator==(const DvSetIterator& o) const { return (rest & (0 - rest)) == (o.rest & (0 - o.rest)); }
    bool operator!=(const DvSetIterator& o) const { return !(*this == o); }
    bool operator<(const DvSetIterator& o) const { return rest != 0 && (o.rest == 0 || **this < *o); }
    bool operator<=(const DvSetIterator& o) const { return o.rest == 0 || (rest != 0 && **this <= *o); }
    bool operator>(const DvSetIterator& o) const { return !(*this <= o); }
    bool operator>=(const DvSetIterator& o) const { return !(*this < o); }

 private:
    const S* p;
    uint32_t rest;
};

template <typename T, typename S>
class DvSet {
 public:
    typedef DvSetIterator<T, S> const_iterator;
    static constexpr T kMax = std::numeric_limits<T>::max();
    uint32_t m = 0;
    bool more = false;

    uint32_t All() const {
        dv_assert(!more, "model: every element is in the universe");
        return m;
    }
    void addRangeClosed(T lo, T hi) {
        if (lo > hi) return;
        uint32_t b = DvBetween(lo, hi);
        m |= b;
        uint64_t n = static_cast<uint64_t>(hi) - lo;
        more = more | (n + 1 != DvCount(b));
    }
    void removeRangeClosed(T lo, T hi) {
        if (lo > hi) return;
        m &= ~DvBetween(lo, hi);
    }
    void flipClosed(T lo, T hi) {
        if (lo > hi) return;
        uint32_t b = DvBetween(lo, hi);
        m ^= b;
        uint64_t n = static_cast<uint64_t>(hi) - lo;
        more = more | (n + 1 != DvCount(b));
    }
    void addRange(uint64_t lo, uint64_t hi) {
        if (hi <= lo || lo > kMax) return;
        addRangeClosed(static_cast<T>(lo), hi - 1 > kMax ? kMax : static_cast<T>(hi - 1));
    }
    void removeRange(uint64_t lo, uint64_t hi) {
        if (hi <= lo || lo > kMax) return;
        removeRangeClosed(static_cast<T>(lo), hi - 1 > kMax ? kMax : static_cast<T>(hi - 1));
    }
    void flip(uint64_t lo, uint64_t hi) {
        if (hi <= lo || lo > kMax) return;
        flipClosed(static_cast<T>(lo), hi - 1 > kMax ? kMax : static_cast<T>(hi - 1));
    }
    bool contains(T x) const {
        uint32_t b = DvBetween(x, x);
        dv_assert(b != 0 || !more, "model: the element asked for is in the universe");
        return (m & b) != 0;
    }
    void add(T x) {
        uint32_t b = DvBetween(x, x);
        dv_assert(b != 0, "model: the element added is in the universe");
        m |= b;
    }
    bool addChecked(T x) {
        bool r = !contains(x);
        add(x);
        return r;
    }
    void remove(T x) { m &= ~DvBetween(x, x); }
    bool removeChecked(T x) {
        bool r = contains(x);
        remove(x);
        return r;
    }
    void addMany(size_t n, const T* v) {
        for (size_t i = 0; i < n; i++) add(v[i]);
    }
    void clear() {
        m = 0;
        more = false;
    }
    bool containsRange(uint64_t lo, uint64_t hi) const {
        if (lo >= hi) return true;
        uint32_t b = DvBetween(lo, hi - 1);
        dv_assert(DvCount(b) == hi - lo, "model: the range asked for is in the universe");
        return (m & b) == b;
    }
    T maximum() const {
        uint32_t a = All();
        uint64_t r = 0;
        for (uint32_t i = 0; i < dv_universe_n; i++) {
            uint64_t b = 0 - static_cast<uint64_t>(a >> i & 1);
            r = (dv_universe[i] & b) | (r & ~b);
        }
        return static_cast<T>(r);
    }
    T minimum() const { return static_cast<T>(DvFirst(All(), kMax)); }
    uint64_t cardinality() const { return DvCount(All()); }
    bool isEmpty() const {
        dv_assert(m != 0 || !more, "model: every element is in the universe");
        return m == 0;
    }
    uint64_t rank(T x) const { return DvCount(All() & DvBetween(0, x)); }
    bool isSubset(const S& o) const { return (All() & ~o.All()) == 0; }
    bool isStrictSubset(const S& o) const { return isSubset(o) && All() != o.All(); }
    bool intersect(const S& o) const { return (All() & o.All()) != 0; }
    uint64_t and_cardinality(const S& o) const { return DvCount(All() & o.All()); }
    uint64_t or_cardinality(const S& o) const { return DvCount(All() | o.All()); }
    uint64_t andnot_cardinality(const S& o) const { return DvCount(All() & ~o.All()); }
    uint64_t xor_cardinality(const S& o) const { return DvCount(All() ^ o.All()); }
    bool operator==(const S& o) const { return All() == o.All(); }
    bool operator!=(const S& o) const { return All() != o.All(); }
    S& operator&=(const S& o) {
        m &= o.m;
        more = more & o.more;
        return static_cast<S&>(*this);
    }
    S& operator|=(const S& o) {
        m |= o.m;
        more = more | o.more;
        return static_cast<S&>(*this);
    }
    S& operator-=(const S& o) {
        m &= ~o.m;
        return static_cast<S&>(*this);
    }
    S& operator^=(const S& o) {
        m ^= o.m;
        more = more | o.more;
        return static_cast<S&>(*this);
    }
    S operator&(const S& o) const {
        S r = static_cast<const S&>(*this);
        r &= o;
        return r;
    }
    S operator|(const S& o) const {
        S r = static_cast<const S&>(*this);
        r |= o;
        return r;
    }
    S operator-(const S& o) const {
        S r = static_cast<const S&>(*this);
        r -= o;
        return r;
    }
    S operator^(const S& o) const {
        S r = static_cast<const S&>(*this);
        r ^= o;
        return r;
    }
    static S fastunion(size_t n, const S** in) {
        S r;
        for (size_t i = 0; i < n; i++) r |= *in[i];
        return r;
    }
    bool runOptimize() { return false; }
    size_t shrinkToFit() { return 0; }
    void swap(S& o) { std::swap(static_cast<S&>(*this), o); }
    void setCopyOnWrite(bool) {}
    std::string toString() const { __builtin_trap(); }
    size_t getSizeInBytes(bool portable = true) const { return 8 + 2 * DvCount(All()); }
    size_t write(char* buf, bool portable = true) const {
        uint64_t n = DvCount(All());
        memset(buf, 0, 8);
        buf[0] = 0x3A;
        buf[1] = static_cast<char>(m);
        buf[2] = static_cast<char>(n);
        buf[3] = sizeof(T);
        for (uint64_t i = 0; i < n; i++) {
            buf[8 + 2 * i] = 0;
            buf[9 + 2 * i] = static_cast<char>(0xA5);
        }
        return 8 + 2 * n;
    }
    static S readSafe(const char* buf, size_t max) {
        if (max < 8 || buf[0] != 0x3A || buf[3] != sizeof(T)) throw std::runtime_error("failed alloc while reading");
        S r;
        r.m = static_cast<uint8_t>(buf[1]);
        if ((r.m >> dv_universe_n) != 0 || static_cast<uint8_t>(buf[2]) != DvCount(r.m) || max < 8 + 2 * DvCount(r.m))
            throw std::runtime_error("failed alloc while reading");
        return r;
    }
    static S read(const char* buf, bool portable = true) { return readSafe(buf, std::numeric_limits<size_t>::max()); }
    const_iterator begin() const { return const_iterator(static_cast<const S&>(*this)); }
    const_iterator end() const { return const_iterator(static_cast<const S&>(*this), true); }
};

class Roaring : public DvSet<uint32_t, Roaring> {
 public:
    Roaring() = default;
    Roaring(size_t n, const uint32_t* v) { addMany(n, v); }
    Roaring(std::initializer_list<uint32_t> l) {
        for (auto x : l) add(x);
    }
    // the library requires two distinct bitmaps here
    Roaring& operator-=(const Roaring& o) {
        dv_assert(&o != this, "library: in-place difference of two distinct bitmaps");
        return DvSet::operator-=(o);
    }
    Roaring& operator^=(const Roaring& o) {
        dv_assert(&o != this, "library: in-place symmetric difference of two distinct bitmaps");
        return DvSet::operator^=(o);
    }
};
typedef Roaring::const_iterator RoaringSetBitForwardIterator;

class Roaring64Map : public DvSet<uint64_t, Roaring64Map> {
 public:
    Roaring64Map() = default;
    Roaring64Map(size_t n, const uint64_t* v) { addMany(n, v); }
    Roaring64Map(std::initializer_list<uint64_t> l) {
        for (auto x : l) add(x);
    }
    explicit Roaring64Map(const Roaring& r) {
        m = r.m;
        more = r.more;
    }
};
typedef Roaring64Map::const_iterator Roaring64MapSetBitForwardIterator;
}  // namespace paimon::roaring
