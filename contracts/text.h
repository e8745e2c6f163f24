// Binary strings of any layout, with the same text in a flat buffer.
#pragma once
#include "paimon/common/data/binary_string.h"
#include "segments.h"

namespace paimon {
// length of the UTF-8 character starting at p, 0 when there is none inside n bytes
inline uint64_t DvChar(const char* p, uint64_t n) {
    auto at = [&](uint64_t i) { return static_cast<uint32_t>(static_cast<uint8_t>(p[i])); };
    auto tail = [&](uint64_t i) { return (at(i) & 0xC0) == 0x80; };
    if (n < 1) return 0;
    if (at(0) < 0x80) return 1;
    if (n >= 2 && at(0) >= 0xC2 && at(0) <= 0xDF && tail(1)) return 2;
    if (n >= 3 && at(0) >= 0xE0 && at(0) <= 0xEF && tail(1) && tail(2)) return 3;
    if (n >= 4 && at(0) >= 0xF0 && at(0) <= 0xF4 && tail(1) && tail(2) && tail(3)) return 4;
    return 0;
}
// makes the bytes a UTF-8 text (search only; leaves a text as it is)
inline void DvMakeText(char* p, uint64_t n) {
    for (uint64_t i = 0; i < n;) {
        uint64_t c = DvChar(p + i, n - i);
        if (c == 0) {
            uint32_t b = static_cast<uint8_t>(p[i]);
            uint64_t w = 1 + b % 4;
            if (w > n - i) w = 1;
            for (uint64_t j = 1; j < w; j++) p[i + j] = static_cast<char>(0x80 | (static_cast<uint8_t>(p[i + j]) & 0x3F));
            p[i] = static_cast<char>(w == 1 ? b & 0x7F : w == 2 ? 0xC2 + (b >> 3) % 28 : w == 3 ? 0xE0 + (b >> 3) % 16 : 0xF0 + (b >> 3) % 5);
            c = w;
        }
        i += c;
    }
}

struct DvText : DvSegments {
    uint64_t off = 0, n = 0;
    char* text = nullptr;
    // n bytes at any offset of k segments
    void Any(const char* name, const char* sn, const char* ln, const char* on, uint64_t k, uint64_t size, uint64_t max, MemoryPool* pool) {
        n = size;
        Make(name, sn, ln, k, max, pool);
        off = dv_len(on, k * max);
#ifdef DV_NATIVE
        if (n <= total && off > total - n) off %= total - n + 1;
#endif
        dv_assume(n <= total && off <= total - n);
        text = flat + off;
    }
    BinaryString Str() const { return BinaryString::FromAddress(v, static_cast<int32_t>(off), static_cast<int32_t>(n)); }
    // one case per place where the text is split
    void Cases() const {
        for (uint64_t b = 1; b < count; b++)
            for (uint64_t c = 0; c <= n; c++)
                if (off + c == b * ss) break;
    }
    // start[i]: a character starts at byte i
    uint64_t Chars(bool* start, MemoryPool* pool) {
#ifdef DV_NATIVE
        DvMakeText(text, n);
        Build(pool);
#endif
        uint64_t chars = 0;
        for (uint64_t i = 0; i <= n; i++) start[i] = false;
        for (uint64_t i = 0; i < n;) {
            uint64_t c = DvChar(text + i, n - i);
            dv_assume(c > 0);
            start[i] = true;
            chars++;
            i += c;
        }
        return chars;
    }
};
// the bytes of a string
inline void DvIs(const BinaryString& s, const char* p, uint64_t n, MemoryPool* pool, const char* what) {
    dv_assert(static_cast<uint64_t>(s.GetSizeInBytes()) == n, what);
    auto b = s.ToBytes(pool);
    dv_assert(b->size() == n, what);
    for (uint64_t i = 0; i < n; i++) dv_assert(b->data()[i] == p[i], what);
}
}  // namespace paimon
