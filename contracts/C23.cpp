// Memory pools: accounting and content over histories of blocks of any size; byte arrays.
#include <cstring>
#include "dv.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"
using namespace paimon;
#ifdef DV_NATIVE
constexpr uint64_t kMax = 5000;
#else
constexpr uint64_t kMax = uint64_t{1} << 40;
#endif
static bool Aligned(const void* p, uint64_t a) { return reinterpret_cast<uintptr_t>(p) % a == 0; }
static uint64_t Size(const char* n) { return dv_len(n, kMax); }
struct Peak {
    MemoryPool* pool;
    uint64_t usage = 0, peak = 0;
    void Is(uint64_t now, const char* what) {
        usage = now;
        dv_assert(pool->CurrentUsage() == now, what);
        uint64_t max = pool->MaxMemoryUsage();
        dv_assert(max >= now, "peak is at least the usage");
        dv_assert(max >= peak, "peak never falls");
        peak = max;
    }
};
static void Fill(void* p, const char* src, uint64_t n) {
    if (n) memcpy(p, src, n);
}
static void MallocFree(uint64_t align) {
    auto pool = GetMemoryPool();
    Peak u{pool.get()};
    u.Is(0, "a new pool is empty");
    uint64_t n = Size("n"), m = Size("m");
    char* want = static_cast<char*>(dv_alloc("p", n, 1));
    void* a = pool->Malloc(n, align);
    dv_assert(a != nullptr && Aligned(a, align ? align : 16), "block with the requested alignment");
    u.Is(n, "usage after one block");
    void* b = pool->Malloc(m, align);
    dv_assert(b != nullptr && a != b, "blocks are distinct");
    u.Is(n + m, "usage after two blocks");
    Fill(a, want, n);
    if (m) memset(b, 1, m);
    DV_FORALL(i, n) { dv_assert(static_cast<char*>(a)[i] == want[i], "blocks do not overlap"); }
    bool first = dv_bool("first");
    pool->Free(first ? a : b, first ? n : m);
    u.Is(first ? m : n, "usage after one release");
    pool->Free(first ? b : a, first ? m : n);
    u.Is(0, "usage after all releases");
    dv_assert(pool->MaxMemoryUsage() == n + m, "peak is the largest usage");
    dv_cover("released");
}
static void Resize(uint64_t align, bool other) {
    auto pool = GetMemoryPool();
    Peak u{pool.get()};
    uint64_t n = Size("n"), m = Size("m"), rest = other ? Size("rest") : 0;
#ifdef DV_NATIVE
    if (dv_bool("near")) m = n - (n ? dv_u8("less") % n : 0);
#endif
    char* want = static_cast<char*>(dv_alloc("p", n, 1));
    void* r = other ? pool->Malloc(rest) : nullptr;
    void* a = pool->Malloc(n, align);
    Fill(a, want, n);
    void* b = pool->Realloc(a, n, m, align);
    dv_assert(m == 0 || (b != nullptr && Aligned(b, align ? align : 16)), "block with the requested alignment");
    u.Is(rest + m, "usage after resizing");
    dv_assert(pool->MaxMemoryUsage() >= rest + n, "peak covers the usage before");
    uint64_t keep = n < m ? n : m;
    DV_FORALL(i, keep) { dv_assert(static_cast<char*>(b)[i] == want[i], "leading content is kept"); }
    if (m) memset(b, 2, m);
    pool->Free(b, m);
    u.Is(rest, "usage after release");
    if (other) {
        if (rest) memset(r, 3, rest);
        pool->Free(r, rest);
    }
    u.Is(0, "usage after all releases");
    dv_cover("resized");
}
static void ResizeNull(uint64_t align) {
    auto pool = GetMemoryPool();
    Peak u{pool.get()};
    uint64_t m = Size("m");
    void* b = pool->Realloc(nullptr, 0, m, align);
    dv_assert(m == 0 || (b != nullptr && Aligned(b, align ? align : 16)), "block with the requested alignment");
    u.Is(m, "usage after the first allocation");
    if (m) memset(b, 2, m);
    pool->Free(b, m);
    u.Is(0, "usage after release");
    dv_cover("resized");
}
#define ALIGN(a)                                            \
    DV_ENTRY(malloc_##a) { MallocFree(a); }                 \
    DV_ENTRY(resize_##a) { Resize(a, false); }              \
    DV_ENTRY(resize_other_##a) { Resize(a, true); }         \
    DV_ENTRY(resize_null_##a) { ResizeNull(a); }
ALIGN(0) ALIGN(8) ALIGN(64) ALIGN(4096)
DV_ENTRY(pools) {
    auto a = GetMemoryPool(), b = GetMemoryPool();
    uint64_t n = Size("n");
    void* p = a->Malloc(n);
    dv_assert(a->CurrentUsage() == n && b->CurrentUsage() == 0 && b->MaxMemoryUsage() == 0, "pools are separate");
    a->Free(p, n);
    auto d = GetDefaultPool(), e = GetDefaultPool();
    dv_assert(d.get() == e.get() && d.get() != nullptr, "one default pool");
    dv_cover("pools");
}
// byte arrays of any size
DV_ENTRY(bytes) {
    auto pool = GetMemoryPool();
    uint64_t n = Size("n");
    {
        Bytes b(n, pool.get());
        dv_assert(b.size() == n, "size");
        dv_assert(pool->CurrentUsage() == n, "charged for the content");
        DV_FORALL(i, n) { dv_assert(b.data()[i] == 0 && &b[i] == b.data() + i, "starts with zeros"); }
        if (n) memset(b.data(), 7, n);
    }
    dv_assert(pool->CurrentUsage() == 0, "nothing charged after its life");
    Bytes none;
    dv_assert(none.size() == 0, "empty without a pool");
    dv_cover("bytes");
}
static std::string Text(const char* name, uint64_t n, char** p) {
    *p = static_cast<char*>(dv_alloc(name, n, 1));
    return std::string(*p, n);
}
DV_ENTRY(bytes_text) {
    auto pool = GetMemoryPool();
    uint64_t n = Size("n");
    char* p;
    std::string s = Text("p", n, &p);
    {
        Bytes b(s, pool.get());
        dv_assert(b.size() == n, "size");
        dv_assert(pool->CurrentUsage() == n, "charged for the content");
        DV_FORALL(i, n) { dv_assert(b.data()[i] == p[i], "content of the text"); }
    }
    dv_assert(pool->CurrentUsage() == 0, "nothing charged after its life");
    dv_cover("text");
}
DV_ENTRY(bytes_allocate) {
    auto pool = GetMemoryPool();
    uint64_t n = dv_len("n", 0x7fffffff);
    char* p;
    {
        auto b = Bytes::AllocateBytes(static_cast<int32_t>(n), pool.get());
        dv_assert(b->size() == n, "size");
        dv_assert(pool->CurrentUsage() == n + sizeof(Bytes), "charged for the array and its content");
        std::shared_ptr<Bytes> shared = std::move(b);
        dv_assert(shared->size() == n && pool->CurrentUsage() == n + sizeof(Bytes), "sharing charges nothing");
    }
    dv_assert(pool->CurrentUsage() == 0, "nothing charged after its life");
    uint64_t m = Size("m");
    std::string s = Text("p", m, &p);
    {
        auto b = Bytes::AllocateBytes(s, pool.get());
        dv_assert(b->size() == m && pool->CurrentUsage() == m + sizeof(Bytes), "charged for the array and its content");
        DV_FORALL(i, m) { dv_assert(b->data()[i] == p[i], "content of the text"); }
    }
    dv_assert(pool->CurrentUsage() == 0, "nothing charged after its life");
    dv_cover("allocated");
}
DV_ENTRY(bytes_copy) {
    auto pool = GetMemoryPool(), other = GetMemoryPool();
    uint64_t n = Size("n"), m = dv_len("m", 0x7fffffff);
#ifdef DV_NATIVE
    if (m < n) std::swap(n, m);
#endif
    dv_assume(n <= m);
    char* p;
    std::string s = Text("p", n, &p);
    {
        Bytes b(s, pool.get());
        auto c = Bytes::CopyOf(b, m, other.get());
        dv_assert(c->size() == m, "size of the copy");
        dv_assert(other->CurrentUsage() == m + sizeof(Bytes) && pool->CurrentUsage() == n, "the copy is charged to its pool");
        DV_FORALL(i, m) { dv_assert(c->data()[i] == (i < n ? p[i] : 0), "content followed by zeros"); }
        if (m) memset(c->data(), 9, m);
        DV_FORALL(i, n) { dv_assert(b.data()[i] == p[i], "the copy is independent"); }
    }
    dv_assert(other->CurrentUsage() == 0 && pool->CurrentUsage() == 0, "nothing charged after its life");
    dv_cover("copied");
}
DV_ENTRY(bytes_move) {
    auto pool = GetMemoryPool(), other = GetMemoryPool();
    uint64_t n = Size("n"), m = Size("m");
    char* p;
    std::string s = Text("p", n, &p);
    {
        Bytes a(s, pool.get());
        Bytes b(std::move(a));
        dv_assert(a.size() == 0 && b.size() == n && pool->CurrentUsage() == n, "moved out without a second charge");
        Bytes c(m, other.get());
        c = std::move(b);
        dv_assert(c.size() == n && b.size() == 0, "moved by assignment");
        dv_assert(pool->CurrentUsage() == n && other->CurrentUsage() == 0, "the replaced content is returned");
        Bytes& same = c;
        c = std::move(same);
        dv_assert(c.size() == n && pool->CurrentUsage() == n, "assigned to itself");
        DV_FORALL(i, n) { dv_assert(c.data()[i] == p[i], "content moves along"); }
    }
    dv_assert(other->CurrentUsage() == 0 && pool->CurrentUsage() == 0, "nothing charged after its life");
    dv_cover("moved");
}
static void Compare(uint64_t n, uint64_t m) {
    auto pool = GetMemoryPool();
    char *p, *q;
    std::string s = Text("p", n, &p), t = Text("q", m, &q);
#ifdef DV_NATIVE
    uint64_t same = dv_len("same", n < m ? n : m);
    for (uint64_t i = 0; i < same; i++) t[i] = q[i] = p[i];
#endif
    Bytes a(s, pool.get()), b(t, pool.get());
    int want = n < m ? -1 : n > m ? 1 : 0;
    for (uint64_t i = n < m ? n : m; i-- > 0;) {
        uint8_t x = static_cast<uint8_t>(p[i]), y = static_cast<uint8_t>(q[i]);
        want = x < y ? -1 : x > y ? 1 : want;
    }
    int32_t c = a.compare(b);
    dv_assert((c < 0 ? -1 : c > 0 ? 1 : 0) == want, "compared by unsigned bytes");
    dv_assert((a == b) == (want == 0), "equal exactly when the bytes agree");
    dv_assert((a < b) == (want < 0), "less exactly when smaller");
    dv_assert(a == a && !(a < a) && a.compare(a) == 0, "equal to itself");
    dv_cover("compared");
}
DV_ENTRY(compare00) { Compare(0, 0); }
DV_ENTRY(compare01) { Compare(0, 1); }
DV_ENTRY(compare11) { Compare(1, 1); }
DV_ENTRY(compare22) { Compare(2, 2); }
DV_ENTRY(compare32) { Compare(3, 2); }
DV_ENTRY(compare23) { Compare(2, 3); }
DV_ENTRY(search_compare) { Compare(dv_len("n", 40), dv_len("m", 40)); }
// histories on the compiled code
DV_ENTRY(search_history) {
    auto pool = GetMemoryPool();
    constexpr uint64_t kBlocks = 6;
    unsigned char* p[kBlocks] = {};
    uint64_t n[kBlocks] = {}, align[kBlocks] = {}, usage = 0, peak = 0;
    uint8_t fill[kBlocks] = {};
    auto same = [&](uint64_t k, uint64_t len) {
        for (uint64_t i = 0; i < len; i++) dv_assert(p[k][i] == fill[k], "content is kept");
    };
    uint64_t steps = dv_len("steps", 24);
    for (uint64_t s = 0; s < steps; s++) {
        uint64_t k = dv_u8("block") % kBlocks;
        uint64_t size = dv_len("size", 3000);
        if (!p[k]) {
            uint64_t a = dv_u8("align") % 4;
            align[k] = a == 0 ? 0 : a == 1 ? 8 : a == 2 ? 64 : 4096;
            p[k] = static_cast<unsigned char*>(pool->Malloc(size, align[k]));
            dv_assert(Aligned(p[k], align[k] ? align[k] : 16), "block with the requested alignment");
            n[k] = size;
            usage += size;
        } else if (dv_bool("resize") && size > 0) {
            same(k, n[k]);
            p[k] = static_cast<unsigned char*>(pool->Realloc(p[k], n[k], size, align[k]));
            dv_assert(Aligned(p[k], align[k] ? align[k] : 16), "block with the requested alignment");
            same(k, n[k] < size ? n[k] : size);
            usage += size - n[k];
            n[k] = size;
        } else {
            same(k, n[k]);
            pool->Free(p[k], n[k]);
            p[k] = nullptr;
            usage -= n[k];
        }
        if (p[k]) {
            fill[k] = static_cast<uint8_t>(s + 1);
            if (n[k]) memset(p[k], fill[k], n[k]);
        }
        if (usage > peak) peak = usage;
        dv_assert(pool->CurrentUsage() == usage, "usage is what is handed out");
        dv_assert(pool->MaxMemoryUsage() >= peak, "peak is at least every usage");
    }
    for (uint64_t k = 0; k < kBlocks; k++)
        if (p[k]) {
            same(k, n[k]);
            pool->Free(p[k], n[k]);
        }
    dv_assert(pool->CurrentUsage() == 0, "nothing left");
    dv_cover("history");
}
