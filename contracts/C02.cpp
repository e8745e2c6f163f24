// Data streams: byte order, length prefix, position, end of input.
#include "paimon/common/io/data_output_stream.h"
#include "paimon/io/byte_array_input_stream.h"
#include "paimon/io/data_input_stream.h"
#include "paimon/memory/bytes.h"
#include "streams.h"
using namespace paimon;

static ByteOrder AnyOrder() {
    return dv_bool("big") ? ByteOrder::PAIMON_BIG_ENDIAN : ByteOrder::PAIMON_LITTLE_ENDIAN;
}
static uint8_t ByteOf(uint64_t v, uint64_t size, uint64_t i, ByteOrder o) {
    uint64_t k = o == ByteOrder::PAIMON_BIG_ENDIAN ? size - 1 - i : i;
    return static_cast<uint8_t>(v >> (8 * k));
}

template <typename T>
static void Value(T v, bool set_order) {
    ByteOrder order = set_order ? AnyOrder() : ByteOrder::PAIMON_BIG_ENDIAN;
    uint64_t cap = dv_len("cap", 1ull << 40);
    uint64_t start = dv_len("start", 1ull << 40);
    dv_assume(start <= cap && cap - start >= sizeof(T));
    char* buf = static_cast<char*>(dv_alloc("buf", cap, 1));
    uint64_t j = dv_u64("j");
    dv_assume(j < cap && (j < start || j >= start + sizeof(T)));
    char before = buf[j];
    auto sink = std::make_shared<DvSink>(buf);
    sink->n = start;
    DataOutputStream out(sink);
    if (set_order) out.SetOrder(order);
    Status s = out.WriteValue<T>(v);
    dv_assert(s.ok(), "write succeeds");
    dv_assert(sink->n == start + sizeof(T), "exactly the encoded size is written");
    uint64_t bits = 0;
    memcpy(&bits, &v, sizeof(T));
    for (uint64_t i = 0; i < sizeof(T); i++) {
        dv_assert(static_cast<uint8_t>(buf[start + i]) == ByteOf(bits, sizeof(T), i, order), "byte order");
    }
    dv_assert(buf[j] == before, "other bytes untouched");
    auto src = std::make_shared<ByteArrayInputStream>(buf, cap);
    DataInputStream in(src);
    if (set_order) in.SetOrder(order);
    dv_assert(in.Seek(static_cast<int64_t>(start)).ok(), "seek succeeds");
    Result<T> r = in.ReadValue<T>();
    dv_assert(r.ok(), "read succeeds");
    T got = r.value();
    dv_assert(memcmp(&got, &v, sizeof(T)) == 0, "read back unchanged");
    Result<int64_t> pos = in.GetPos();
    dv_assert(pos.ok() && pos.value() == static_cast<int64_t>(start + sizeof(T)), "position advanced by the encoded size");
    Result<uint64_t> len = in.Length();
    dv_assert(len.ok() && len.value() == cap, "length");
    dv_cover("value");
}
DV_ENTRY(value_bool) { Value<bool>(dv_bool("v"), true); }
DV_ENTRY(value_char) { Value<char>(dv_i8("v"), true); }
DV_ENTRY(value_i16) { Value<int16_t>(dv_i16("v"), true); }
DV_ENTRY(value_u16) { Value<uint16_t>(dv_u16("v"), true); }
DV_ENTRY(value_i32) { Value<int32_t>(dv_i32("v"), true); }
DV_ENTRY(value_i64) { Value<int64_t>(dv_i64("v"), true); }
DV_ENTRY(value_default_order) { Value<int64_t>(dv_i64("v"), false); }

// reading at any position of any input
template <typename T>
static void ReadAny() {
    ByteOrder order = AnyOrder();
    uint64_t n = dv_len("n", 1ull << 40);
    uint64_t p = dv_len("p", 1ull << 40);
    dv_assume(p <= n && n > 0);
    char* buf = static_cast<char*>(dv_alloc("buf", n, 1));
    auto src = std::make_shared<DvSource>(buf, n);
    DataInputStream in(src);
    in.SetOrder(order);
    dv_assert(in.Seek(static_cast<int64_t>(p)).ok(), "seek inside");
    Result<T> r = in.ReadValue<T>();
    dv_assert(r.ok() == (n - p >= sizeof(T)), "succeeds exactly when enough bytes are left");
    if (r.ok()) {
        T v = r.value();
        uint64_t bits = 0;
        memcpy(&bits, &v, sizeof(T));
        for (uint64_t i = 0; i < sizeof(T); i++)
            dv_assert(static_cast<uint8_t>(buf[p + i]) == ByteOf(bits, sizeof(T), i, order), "value of the bytes in the configured order");
        dv_assert(src->pos == p + sizeof(T), "position advanced by the encoded size");
        dv_cover("read");
    } else {
        dv_assert(src->pos == p, "failed read leaves the position");
        dv_cover("past the end");
    }
}
DV_ENTRY(read_char) { ReadAny<char>(); }
DV_ENTRY(read_i8) { ReadAny<int8_t>(); }
DV_ENTRY(read_i16) { ReadAny<int16_t>(); }
DV_ENTRY(read_u16) { ReadAny<uint16_t>(); }
DV_ENTRY(read_i32) { ReadAny<int32_t>(); }
DV_ENTRY(read_i64) { ReadAny<int64_t>(); }
DV_ENTRY(read_float) {
    uint32_t v = dv_u32("v");
    bool big = dv_bool("big");
    char b[4];
    for (int i = 0; i < 4; i++) b[i] = static_cast<char>(v >> (8 * (big ? 3 - i : i)));
    auto src = std::make_shared<DvSource>(b, 4);
    DataInputStream in(src);
    if (!big) in.SetOrder(ByteOrder::PAIMON_LITTLE_ENDIAN);
    Result<float> r = in.ReadValue<float>();
    dv_assert(r.ok(), "read succeeds");
    float f = r.value();
    uint32_t w;
    memcpy(&w, &f, 4);
    dv_assert(w == v || (f != f), "float bits");
    dv_cover("float");
}

DV_ENTRY(string) {
    ByteOrder order = AnyOrder();
    uint64_t n = dv_len("n", 65535);
    std::string s;
    dv_string(&s, "s", n);
    uint64_t cap = dv_len("cap", 1ull << 40);
    uint64_t start = dv_len("start", 1ull << 40);
    dv_assume(start <= cap && cap - start >= n + 2);
    char* buf = static_cast<char*>(dv_alloc("buf", cap, 1));
    auto sink = std::make_shared<DvSink>(buf);
    sink->n = start;
    DataOutputStream out(sink);
    out.SetOrder(order);
    dv_assert(out.WriteString(s).ok(), "write succeeds");
    dv_assert(sink->n == start + n + 2, "two bytes of length and the content");
    dv_assert(static_cast<uint8_t>(buf[start]) == ByteOf(n, 2, 0, order), "length byte 0");
    dv_assert(static_cast<uint8_t>(buf[start + 1]) == ByteOf(n, 2, 1, order), "length byte 1");
    DV_FORALL(i, n) { dv_assert(buf[start + 2 + i] == s[i], "content in order"); }
    auto src = std::make_shared<DvSource>(buf, cap);
    src->pos = start;
    DataInputStream in(src);
    in.SetOrder(order);
    Result<std::string> r = in.ReadString();
    dv_assert(r.ok(), "read succeeds");
    dv_assert(r.value().size() == n, "same length");
    DV_FORALL(k, n) { dv_assert(r.value()[k] == s[k], "same content"); }
    dv_assert(src->pos == start + n + 2, "position advanced by the encoded size");
    dv_cover("string");
}
// string reads from arbitrary input
DV_ENTRY(string_any) {
    ByteOrder order = AnyOrder();
    uint64_t n = dv_len("n", 1ull << 40);
    uint64_t p = dv_len("p", 1ull << 40);
    dv_assume(p <= n && n > 0);
    char* buf = static_cast<char*>(dv_alloc("buf", n, 1));
    auto src = std::make_shared<DvSource>(buf, n);
    src->pos = p;
    DataInputStream in(src);
    in.SetOrder(order);
    Result<std::string> r = in.ReadString();
    if (n - p < 2) {
        dv_assert(!r.ok() && src->pos == p, "truncated length refused");
        dv_cover("no length");
        return;
    }
    uint64_t b0 = static_cast<uint8_t>(buf[p]), b1 = static_cast<uint8_t>(buf[p + 1]);
    uint64_t l = order == ByteOrder::PAIMON_BIG_ENDIAN ? b0 * 256 + b1 : b1 * 256 + b0;
    dv_assert(r.ok() == (n - p - 2 >= l), "succeeds exactly when the content is there");
    if (r.ok()) {
        dv_assert(r.value().size() == l, "announced length");
        DV_FORALL(k, l) { dv_assert(r.value()[k] == buf[p + 2 + k], "content"); }
        dv_assert(src->pos == p + 2 + l, "position");
        dv_cover("read");
    } else {
        dv_cover("truncated");
    }
}
DV_ENTRY(bytes) {
    uint64_t n = dv_len("n", 1u << 30);
    DvPool pool;
    auto b = std::make_shared<Bytes>(n, &pool);
    char* c = static_cast<char*>(dv_alloc("c", n, 1));
    if (n > 0) memcpy(b->data(), c, n);
    uint64_t cap = dv_len("cap", 1ull << 40);
    uint64_t start = dv_len("start", 1ull << 40);
    dv_assume(start <= cap && cap - start >= n && cap > 0);
    char* buf = static_cast<char*>(dv_alloc("buf", cap, 1));
    auto sink = std::make_shared<DvSink>(buf);
    sink->n = start;
    DataOutputStream out(sink);
    dv_assert(out.WriteBytes(b).ok(), "write succeeds");
    dv_assert(sink->n == start + n, "exactly the block is written");
    DV_FORALL(i, n) { dv_assert(buf[start + i] == c[i], "content in order"); }
    auto src = std::make_shared<DvSource>(buf, cap);
    src->pos = start;
    DataInputStream in(src);
    if (dv_bool("raw")) {
        char* d = static_cast<char*>(malloc(n));
        dv_assert(in.Read(d, static_cast<uint32_t>(n)).ok(), "read succeeds");
        DV_FORALL(k, n) { dv_assert(d[k] == c[k], "same content"); }
        free(d);
        dv_cover("raw");
    } else {
        Bytes d(n, &pool);
        dv_assert(in.ReadBytes(&d).ok(), "read succeeds");
        DV_FORALL(k, n) { dv_assert(d.data()[k] == c[k], "same content"); }
        dv_cover("bytes");
    }
    dv_assert(src->pos == start + n, "position advanced");
}
// raw reads of any size at any position of any input
DV_ENTRY(raw_any) {
    uint64_t n = dv_len("n", 1ull << 33);
    uint64_t p = dv_len("p", 1ull << 33);
    uint32_t size = dv_u32("size");
    dv_assume(p <= n && n > 0 && size <= 0x7fffffffu);
    char* buf = static_cast<char*>(dv_alloc("buf", n, 1));
#ifdef DV_NATIVE
    dv_assume(size < (1u << 20));
#endif
    char* d = static_cast<char*>(dv_alloc("d", size, 1));
    auto src = std::make_shared<DvSource>(buf, n);
    src->pos = p;
    DataInputStream in(src);
    uint64_t j = dv_u64("j");
    char before = 0;
    if (j < size) before = d[j];
    Status s = in.Read(d, size);
    dv_assert(s.ok() == (size <= n - p), "succeeds exactly when enough bytes are left");
    if (s.ok()) {
        if (j < size) dv_assert(d[j] == buf[p + j], "content");
        dv_assert(src->pos == p + size, "position");
        dv_cover("read");
    } else {
        if (j < size) dv_assert(d[j] == before, "failed read delivers nothing");
        dv_assert(src->pos == p, "failed read leaves the position");
        dv_cover("past the end");
    }
}
// a sink that takes fewer bytes than offered must not be reported as success
DV_ENTRY(short_write) {
    char buf[64];
    auto sink = std::make_shared<DvSink>(buf);
    sink->room = dv_len("room", 64);
    DataOutputStream out(sink);
    uint8_t k = dv_u8("k");
    if (k == 0) {
        dv_assert(out.WriteValue<int64_t>(dv_i64("v")).ok() == (sink->room >= 8), "i64");
        dv_cover("i64");
    } else if (k == 1) {
        std::string s("abcde");
        dv_assert(out.WriteString(s).ok() == (sink->room >= 5), "string");
        dv_cover("string");
    } else if (k == 2) {
        DvPool pool;
        auto b = std::make_shared<Bytes>(9, &pool);
        dv_assert(out.WriteBytes(b).ok() == (sink->room >= 9), "bytes");
        dv_cover("bytes");
    }
}
