// Contract language used by the harnesses under /verif/contracts.
// Verified build: the functions below are intrinsics of the verifier.
// Native build (-DDV_NATIVE): they are implemented in dv_native.cpp for replay and search.
#pragma once
#include <cstdint>
#include <cstring>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

extern "C" {
uint8_t dv_u8(const char* name);
uint16_t dv_u16(const char* name);
uint32_t dv_u32(const char* name);
uint64_t dv_u64(const char* name);
bool dv_bool(const char* name);
void dv_assume(bool c);
void dv_assert(bool c, const char* label);
void dv_cover(const char* label);
[[noreturn]] void dv_stop();
bool dv_fork();
bool dv_split(bool c);
uint64_t dv_skolem(const char* name, uint64_t n);
// heap block of `bytes` arbitrary bytes, seen as elements of `elem` bytes
void* dv_alloc(const char* name, uint64_t bytes, uint32_t elem);
}

#define DV_NAME2(a, b) a##b
#define DV_ENTRY(id) extern "C" void dv_entry_##id()

inline int64_t dv_i64(const char* n) { return static_cast<int64_t>(dv_u64(n)); }
inline int32_t dv_i32(const char* n) { return static_cast<int32_t>(dv_u32(n)); }
inline int16_t dv_i16(const char* n) { return static_cast<int16_t>(dv_u16(n)); }
inline int8_t dv_i8(const char* n) { return static_cast<int8_t>(dv_u8(n)); }

#ifdef DV_NATIVE
#define DV_FORALL(i, n) for (uint64_t i = 0, i##_n = (n); i < i##_n; i++)
uint64_t dv_size_limit(uint64_t max);
inline uint64_t dv_len(const char* name, uint64_t max) {
    uint64_t n = dv_u64(name);
    uint64_t lim = dv_size_limit(max);
    if (n > lim) n = n % (lim + 1);
    return n;
}
#else
// for every index i < n (checked for one arbitrary i; the other path continues behind the block)
#define DV_FORALL(i, n) \
    if (dv_fork())      \
        for (uint64_t i = dv_skolem(#i, (n));; dv_stop())
inline uint64_t dv_len(const char* name, uint64_t max) {
    uint64_t n = dv_u64(name);
    dv_assume(n <= max);
    return n;
}
#endif
// arbitrary value in [lo, hi]
inline int64_t dv_in(const char* name, int64_t lo, int64_t hi) {
    int64_t v = dv_i64(name);
#ifdef DV_NATIVE
    if (v < lo || v > hi) v = lo + static_cast<int64_t>(static_cast<uint64_t>(v) % (static_cast<uint64_t>(hi - lo) + 1));
#else
    dv_assume(v >= lo && v <= hi);
#endif
    return v;
}

// std::vector<T> (T trivially copyable) of exactly n arbitrary elements
template <typename T>
inline std::vector<T> dv_vec(const char* name, uint64_t n) {
    static_assert(std::is_trivially_copyable_v<T>);
    T* p = static_cast<T*>(dv_alloc(name, n * sizeof(T), sizeof(T)));
#ifdef DV_NATIVE
    std::vector<T> v(p, p + n);
    free(p);
    return v;
#else
    std::vector<T> v;
    T** r = reinterpret_cast<T**>(&v);
    r[0] = p;
    r[1] = p + n;
    r[2] = p + n;
    return v;
#endif
}

// std::string of exactly n arbitrary bytes
inline void dv_string(std::string* out, const char* name, uint64_t n) {
#ifdef DV_NATIVE
    char* p = static_cast<char*>(dv_alloc(name, n, 1));
    *out = std::string(p, n);
    free(p);
#else
    char* p = static_cast<char*>(dv_alloc(name, n + 1, 1));
    p[n] = 0;
    struct Rep {
        char* p;
        uint64_t n;
        uint64_t cap;
    };
    Rep* r = reinterpret_cast<Rep*>(out);
    r->p = p;
    r->n = n;
    r->cap = n;
#endif
}
