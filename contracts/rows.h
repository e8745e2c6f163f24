// Sets of row ids over a small universe of arbitrary ids.
#pragma once
#include "dv.h"
#include "paimon/utils/roaring_bitmap32.h"
#include "paimon/utils/roaring_bitmap64.h"
#ifndef DV_NATIVE
uint64_t dv_universe[8];
uint32_t dv_universe_n = 0;
#endif

namespace paimon {
struct DvRows {
    uint64_t n = 0;
    uint64_t id[8];
    static uint64_t Id(const char* name, uint64_t max) { return max <= UINT32_MAX ? dv_u32(name) : dv_u64(name); }
    // k different ids up to max, ascending
    void Any(const char* name, uint64_t k, uint64_t max) {
        n = k;
        for (uint64_t i = 0; i < n; i++) id[i] = Id(name, max);
#ifdef DV_NATIVE
        for (uint64_t i = 0; i < n; i++) {
            if (id[i] > max) id[i] %= (id[i] & 1 || max == UINT64_MAX) ? max : max < 100 ? max : 100;
        }
        for (uint64_t i = 0; i < n; i++)
            for (uint64_t j = i + 1; j < n; j++)
                if (id[j] < id[i]) std::swap(id[i], id[j]);
        for (uint64_t i = 1; i < n; i++)
            if (id[i] <= id[i - 1]) id[i] = id[i - 1] + 1;
        for (uint64_t i = n; i-- > 0;) {
            uint64_t top = max - (n - 1 - i);
            if (id[i] > top) id[i] = top;
        }
#endif
        for (uint64_t i = 0; i < n; i++) dv_assume(id[i] <= max && (i == 0 || id[i - 1] < id[i]));
        Told();
        Use();
    }
    // the order of the ids, which the verifier need not derive again
    void Told() const {
        for (uint64_t i = 0; i < n; i++)
            for (uint64_t j = i + 1; j < n; j++) {
                dv_assert(id[i] < id[j], "ids ascend");
                dv_assume(id[i] < id[j]);
                bool small = id[j] <= INT64_MAX;
                dv_assume(!small || static_cast<int64_t>(id[i]) < static_cast<int64_t>(id[j]));
            }
    }
    // k adjacent ids up to max
    void Block(const char* name, uint64_t k, uint64_t max) {
        n = k;
        uint64_t b = Id(name, max);
#ifdef DV_NATIVE
        if (b > max - (n - 1)) b %= (b & 1) ? max - (n - 1) : 100;
#endif
        dv_assume(b <= max - (n - 1));
        for (uint64_t i = 0; i < n; i++) id[i] = b + i;
        Told();
        Use();
    }
    void Use() const {
#ifndef DV_NATIVE
        dv_universe_n = static_cast<uint32_t>(n);
        for (uint64_t i = 0; i < n; i++) dv_universe[i] = id[i];
#endif
    }
    uint32_t Mask(const char* name) const { return dv_u8(name) & ((1u << n) - 1); }
    uint64_t Pick(const char* name) const {
        uint8_t i = dv_u8(name);
#ifdef DV_NATIVE
        i %= n;
#endif
        dv_assume(i < n);
        uint64_t r = 0;
        for (uint64_t j = 0; j < n; j++) r |= id[j] & (0 - static_cast<uint64_t>(i == j));
        return r;
    }
    template <typename B>
    B Make(uint32_t mask) const {
        B b;
        for (uint64_t i = 0; i < n; i++)
            if (mask >> i & 1) b.Add(id[i]);
        return b;
    }
    template <typename B>
    void Is(const B& b, uint32_t mask, const char* what) const {
        for (uint64_t i = 0; i < n; i++) dv_assert(b.Contains(id[i]) == (mask >> i & 1), what);
    }
    static uint64_t Count(uint32_t mask) {
        uint64_t r = 0;
        for (uint64_t i = 0; i < 8; i++) r += mask >> i & 1;
        return r;
    }
    // everything that can be asked of the set
    template <typename B>
    void Exactly(const B& b, uint32_t mask, const char* what) const {
        Is(b, mask, what);
        dv_assert(b.IsEmpty() == (mask == 0), "empty exactly when nothing is in it");
        dv_assert(static_cast<uint64_t>(b.Cardinality()) == Count(mask), "number of elements");
        uint32_t rest = mask;
        auto it = b.Begin();
        for (uint64_t i = 0; i < n; i++) {
            if (!(mask >> i & 1)) continue;
            dv_assert(it != b.End(), "iteration reaches every element");
            if (!(it != b.End())) break;
            dv_assert(static_cast<uint64_t>(*it) == id[i], "iteration in ascending order");
            ++it;
        }
        dv_assert(it == b.End(), "iteration ends after the last element");
    }
};
}  // namespace paimon
