// Memory segments of arbitrary content, together with the same content in one flat buffer.
#pragma once
#include <vector>

#include "paimon/common/memory/memory_segment.h"
#include "paimon/common/memory/memory_segment_utils.h"
#include "paimon/memory/bytes.h"
#include "streams.h"

namespace paimon {
// a Bytes of n arbitrary bytes; *flat holds the same content
inline std::shared_ptr<Bytes> DvBytes(const char* name, uint64_t n, MemoryPool* pool, char** flat) {
    char* p = static_cast<char*>(dv_alloc(name, n, 1));
    auto b = std::make_shared<Bytes>(n, pool);
    if (n > 0) memcpy(b->data(), p, n);
    *flat = p;
    return b;
}

// `count` segments of size ss (the last one of size ls) showing the flat buffer
struct DvSegments {
    std::vector<MemorySegment> v;
    char* flat = nullptr;
    uint64_t total = 0;
    uint64_t ss = 0;
    uint64_t count = 0;
    void Make(const char* name, const char* sn, const char* ln, uint64_t k, uint64_t max, MemoryPool* pool) {
        count = k;
        ss = dv_len(sn, max);
        uint64_t ls = dv_len(ln, max);
#ifdef DV_NATIVE
        if (ss == 0) ss = 1;
        if (ls == 0) ls = 1;
        if (ls > ss) std::swap(ls, ss);
#endif
        dv_assume(ss >= 1 && ls >= 1 && ls <= ss);
        total = ss * (k - 1) + ls;
        flat = static_cast<char*>(dv_alloc(name, total, 1));
        Build(pool);
    }
    void Build(MemoryPool* pool) {
        v.clear();
        for (uint64_t i = 0; i < count; i++) {
            uint64_t n = i + 1 == count ? total - ss * i : ss;
            auto b = std::make_shared<Bytes>(n, pool);
            memcpy(b->data(), flat + i * ss, n);
            v.push_back(MemorySegment::Wrap(b));
        }
    }
    // the segments show exactly the flat buffer
    void Same(const char* what) {
        for (uint64_t s = 0; s < count; s++) {
            const char* d = v[s].GetArray()->data();
            uint64_t n = s + 1 == count ? total - ss * s : ss;
            DV_FORALL(i, n) { dv_assert(d[i] == flat[s * ss + i], what); }
        }
    }
};
}  // namespace paimon
