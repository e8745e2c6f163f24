// Segmented output: the concatenated segments are the written values, whatever the segment size.
#include "paimon/common/io/memory_segment_output_stream.h"
#include "segments.h"
using namespace paimon;
struct Out {
    std::shared_ptr<DvPool> pool = std::make_shared<DvPool>();
    uint64_t ss;
    std::unique_ptr<MemorySegmentOutputStream> out;
    char* first;
    uint64_t n0;
    // a stream of any segment size, brought to any position by one block
    explicit Out(uint64_t max) {
        ss = dv_len("ss", max);
        dv_assume(ss >= 1);
        out = std::make_unique<MemorySegmentOutputStream>(static_cast<int32_t>(ss), pool);
        dv_assert(out->CurrentSize() == 0, "empty at first");
        n0 = dv_len("n0", ss);
        first = static_cast<char*>(dv_alloc("first", n0, 1));
        out->Write(first, static_cast<uint32_t>(n0));
        dv_assert(out->CurrentSize() == static_cast<int64_t>(n0), "size after one block");
    }
    void Is(const char* next, uint64_t n) {
        uint64_t total = n0 + n;
        dv_assert(out->CurrentSize() == static_cast<int64_t>(total), "size is the number of bytes written");
        const std::vector<MemorySegment>& g = out->Segments();
        dv_assert(g.size() * ss >= total, "all bytes are held");
        uint64_t at = 0;
        for (uint64_t s = 0; s < g.size(); s++) {
            dv_assert(static_cast<uint64_t>(g[s].Size()) == ss, "segment size");
            const char* d = g[s].GetArray()->data();
            DV_FORALL(i, ss) {
                if (at + i < n0)
                    dv_assert(d[i] == first[at + i], "earlier bytes kept");
                else if (at + i < total)
                    dv_assert(d[i] == next[at + i - n0], "bytes written in order");
            }
            at += ss;
        }
        dv_cover("written");
    }
};
constexpr uint64_t kMax = 0x0fffffff;
template <typename T>
static void Value(T v, uint64_t max) {
    Out o(max);
    bool little = dv_bool("little");
    if (little) o.out->SetOrder(ByteOrder::PAIMON_LITTLE_ENDIAN);
    o.out->WriteValue<T>(v);
    char m[sizeof(T)], e[sizeof(T)];
    memcpy(m, &v, sizeof(T));
    for (size_t i = 0; i < sizeof(T); i++) e[i] = little ? m[i] : m[sizeof(T) - 1 - i];
    o.Is(e, sizeof(T));
}
DV_ENTRY(byte) { Value<int8_t>(dv_i8("v"), kMax); }
DV_ENTRY(flag) { Value<bool>(dv_bool("v"), kMax); }
DV_ENTRY(short_) { Value<int16_t>(dv_i16("v"), kMax); }
DV_ENTRY(int_) { Value<int32_t>(dv_i32("v"), kMax); }
DV_ENTRY(long_) { Value<int64_t>(dv_i64("v"), kMax); }
DV_ENTRY(search_long) { Value<int64_t>(dv_i64("v"), 11); }
// a block that touches at most k further segments
static void Block(int how, uint64_t k, uint64_t max) {
    Out o(max);
    uint64_t n = dv_len("n", k * max);
    dv_assume(n + o.n0 <= k * o.ss);
    if (how == 0) {
        char* p = static_cast<char*>(dv_alloc("p", n, 1));
        o.out->Write(p, static_cast<uint32_t>(n));
        o.Is(p, n);
    } else if (how == 1) {
        char* p;
        auto b = DvBytes("p", n, o.pool.get(), &p);
        o.out->WriteBytes(b);
        o.Is(p, n);
    } else {
        char* p;
        uint64_t size = dv_len("size", k * max), off = dv_len("off", k * max);
        dv_assume(size > 0 && n <= size && off <= size - n);
        auto b = DvBytes("p", size, o.pool.get(), &p);
        o.out->Write(MemorySegment::Wrap(b), static_cast<int32_t>(off), static_cast<int32_t>(n));
        o.Is(p + off, n);
    }
}
DV_ENTRY(raw2) { Block(0, 2, kMax); }
DV_ENTRY(raw3) { Block(0, 3, kMax); }
DV_ENTRY(bytes2) { Block(1, 2, kMax); }
DV_ENTRY(bytes3) { Block(1, 3, kMax); }
DV_ENTRY(part2) { Block(2, 2, kMax); }
DV_ENTRY(part3) { Block(2, 3, kMax); }
DV_ENTRY(search_raw) { Block(0, 9, 20); }
DV_ENTRY(search_bytes) { Block(1, 9, 20); }
DV_ENTRY(search_part) { Block(2, 9, 20); }
static void String(uint64_t max, uint64_t len) {
    Out o(max);
    uint64_t n = dv_len("n", len);
    char* p = static_cast<char*>(dv_alloc("p", n, 1));
    char* e = static_cast<char*>(dv_alloc("e", n + 2, 1));
    bool little = dv_bool("little");
    if (little) o.out->SetOrder(ByteOrder::PAIMON_LITTLE_ENDIAN);
    e[little ? 1 : 0] = static_cast<char>(n >> 8);
    e[little ? 0 : 1] = static_cast<char>(n);
    if (n > 0) memcpy(e + 2, p, n);
    dv_assume(o.n0 + n + 2 <= 3 * o.ss);
    o.out->WriteString(std::string(p, n));
    o.Is(e, n + 2);
}
DV_ENTRY(text) { String(kMax, 0x7fff); }
DV_ENTRY(search_text) { String(400, 300); }
#ifdef DV_NATIVE
// any sequence of writes
DV_ENTRY(search_sequence) {
    auto pool = std::make_shared<DvPool>();
    uint64_t ss = 1 + dv_len("ss", 30);
    MemorySegmentOutputStream out(static_cast<int32_t>(ss), pool);
    bool little = dv_bool("little");
    if (little) out.SetOrder(ByteOrder::PAIMON_LITTLE_ENDIAN);
    std::string want;
    auto put = [&](const void* v, size_t n) {
        std::string s(static_cast<const char*>(v), n);
        if (!little) s = std::string(s.rbegin(), s.rend());
        want += s;
    };
    uint64_t k = dv_len("k", 12);
    for (uint64_t i = 0; i < k; i++) {
        int64_t v = dv_i64("v");
        std::string s(dv_len("n", 70), '\0');
        for (auto& c : s) c = static_cast<char>(dv_i8("c"));
        switch (dv_len("op", 8)) {
            case 0: { out.WriteValue<int64_t>(v); put(&v, 8); break; }
            case 1: { int32_t x = static_cast<int32_t>(v); out.WriteValue<int32_t>(x); put(&x, 4); break; }
            case 2: { int16_t x = static_cast<int16_t>(v); out.WriteValue<int16_t>(x); put(&x, 2); break; }
            case 3: { int8_t x = static_cast<int8_t>(v); out.WriteValue<int8_t>(x); put(&x, 1); break; }
            case 4: { bool x = v & 1; out.WriteValue<bool>(x); want += static_cast<char>(x); break; }
            case 5: { out.WriteString(s); int16_t x = static_cast<int16_t>(s.size()); put(&x, 2); want += s; break; }
            case 6: { out.Write(s.data(), static_cast<uint32_t>(s.size())); want += s; break; }
            case 7: { auto b = std::make_shared<Bytes>(s, pool.get()); out.WriteBytes(b); want += s; break; }
            default: {
                auto b = std::make_shared<Bytes>(s, pool.get());
                uint64_t off = dv_len("off", s.size());
                if (s.empty()) break;
                out.Write(MemorySegment::Wrap(b), static_cast<int32_t>(off), static_cast<int32_t>(s.size() - off));
                want += s.substr(off);
            }
        }
        dv_assert(out.CurrentSize() == static_cast<int64_t>(want.size()), "size is the number of bytes written");
    }
    std::string got;
    for (auto& g : out.Segments()) got += std::string(g.GetArray()->data(), g.Size());
    dv_assert(got.size() >= want.size() && got.substr(0, want.size()) == want, "bytes written in order");
}
#endif
