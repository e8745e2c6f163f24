// Bounded input streams: exactly the bytes of the window, refused operations have no effect.
#include "paimon/common/io/offset_input_stream.h"
#include "paimon/io/byte_array_input_stream.h"
#include "streams.h"
using namespace paimon;
constexpr uint64_t kMax = 1ull << 40;

// a read of any size at the current position p of a window w[0..n)
static void CheckRead(InputStream* s, const char* w, uint64_t n, uint64_t p, uint32_t size) {
    dv_assume(size <= 0x7fffffffu || size > n - p);
    uint64_t cap = size;
#ifdef DV_NATIVE
    if (cap > (1u << 22)) cap = 1u << 22;
#endif
    char* d = static_cast<char*>(dv_alloc("d", cap, 1));
    Result<int32_t> r = s->Read(d, size);
    dv_assert(r.ok() == (size <= n - p), "read succeeds exactly inside the window");
    Result<int64_t> q = s->GetPos();
    dv_assert(q.ok(), "position known");
    if (r.ok()) {
        dv_assert(r.value() == static_cast<int32_t>(size), "full read");
        DV_FORALL(i, size) { dv_assert(d[i] == w[p + i], "bytes of the window"); }
        dv_assert(q.value() == static_cast<int64_t>(p + size), "position advanced");
        dv_cover("read");
    } else {
        dv_assert(q.value() == static_cast<int64_t>(p), "refused read keeps the position");
        dv_cover("read refused");
    }
    free(d);
}
static void CheckPositioned(InputStream* s, const char* w, uint64_t n, uint64_t p, bool async) {
    uint32_t size = dv_u32("psize");
    uint64_t at = dv_u64("at");
    bool in = at <= n && size <= n - at;
    dv_assume(size <= 0x7fffffffu || !in);
    uint64_t cap = size;
#ifdef DV_NATIVE
    if (cap > (1u << 22)) cap = 1u << 22;
#endif
    char* d = static_cast<char*>(dv_alloc("pd", cap, 1));
    bool ok;
    if (async) {
        int calls = 0;
        bool st = false;
        s->ReadAsync(d, size, at, [&calls, &st](Status x) {
            calls++;
            st = x.ok();
        });
        dv_assert(calls == 1, "called back once");
        ok = st;
    } else {
        Result<int32_t> r = s->Read(d, size, at);
        ok = r.ok();
        if (ok) dv_assert(r.value() == static_cast<int32_t>(size), "full positioned read");
    }
    dv_assert(ok == in, "positioned read succeeds exactly inside the window");
    if (ok) {
        DV_FORALL(i, size) { dv_assert(d[i] == w[at + i], "bytes of the window"); }
        dv_cover("positioned");
    } else {
        dv_cover("positioned refused");
    }
    Result<int64_t> q = s->GetPos();
    dv_assert(q.ok() && q.value() == static_cast<int64_t>(p), "positioned read keeps the position");
    free(d);
}
static uint64_t CheckSeek(InputStream* s, uint64_t n, uint64_t p) {
    int64_t off = dv_i64("off");
    uint8_t o = dv_u8("origin");
    dv_assume(o <= 2);
    SeekOrigin origin = o == 0 ? FS_SEEK_SET : o == 1 ? FS_SEEK_CUR : FS_SEEK_END;
    uint64_t base = o == 0 ? 0 : o == 1 ? p : n;
    bool in = off >= 0 ? static_cast<uint64_t>(off) <= n - base : static_cast<uint64_t>(-(off + 1)) < base;
    Status st = s->Seek(off, origin);
    dv_assert(st.ok() == in, "seek succeeds exactly inside the window");
    uint64_t want = in ? base + static_cast<uint64_t>(off) : p;
    Result<int64_t> q = s->GetPos();
    dv_assert(q.ok() && q.value() == static_cast<int64_t>(want), "position after seek; a refused seek has no effect");
    dv_cover("seek");
    return want;
}
static void Any(InputStream* s, const char* w, uint64_t n, int op) {
    uint64_t p = dv_len("p", kMax);
    dv_assume(p <= n);
    dv_assert(s->Seek(static_cast<int64_t>(p), FS_SEEK_SET).ok(), "every position of the window is reachable");
    Result<uint64_t> l = s->Length();
    dv_assert(l.ok() && l.value() == n, "length of the window");
    uint32_t size = dv_u32("size");
    if (op == 0) {
        CheckRead(s, w, n, p, size);
    } else if (op == 1) {
        CheckPositioned(s, w, n, p, false);
        CheckRead(s, w, n, p, size);
    } else if (op == 2) {
        CheckPositioned(s, w, n, p, true);
    } else if (op == 3) {
        uint64_t q = CheckSeek(s, n, p);
        CheckRead(s, w, n, q, size);
    } else if (op == 4) {
        // a refused read in between changes nothing
        uint32_t big = dv_u32("big");
        dv_assume(big > n - p);
        char c[1];
        dv_assert(!s->Read(c, big).ok(), "read past the end refused");
        CheckRead(s, w, n, p, size);
    } else {
        // two reads in a row
        uint32_t first = dv_u32("first");
        dv_assume(first <= n - p && first <= 0x7fffffffu);
        CheckRead(s, w, n, p, first);
        CheckRead(s, w, n, p + first, size);
    }
}
static void Array(int op) {
    uint64_t n = dv_len("n", kMax);
    dv_assume(n > 0);
    char* buf = static_cast<char*>(dv_alloc("buf", n, 1));
    ByteArrayInputStream s(buf, n);
    Result<int64_t> q = s.GetPos();
    dv_assert(q.ok() && q.value() == 0, "starts at 0");
    Any(&s, buf, n, op);
}
DV_ENTRY(array_read) { Array(0); }
DV_ENTRY(array_positioned) { Array(1); }
DV_ENTRY(array_async) { Array(2); }
DV_ENTRY(array_seek) { Array(3); }
DV_ENTRY(array_refused) { Array(4); }
DV_ENTRY(array_reads) { Array(5); }
DV_ENTRY(array_raw) {
    uint64_t n = dv_len("n", kMax);
    dv_assume(n > 0);
    char* buf = static_cast<char*>(dv_alloc("buf", n, 1));
    ByteArrayInputStream s(buf, n);
    uint64_t p = dv_len("p", kMax);
    dv_assume(p <= n);
    dv_assert(s.Seek(static_cast<int64_t>(p), FS_SEEK_SET).ok(), "seek");
    dv_assert(s.GetRawData() == buf + p, "raw data at the position");
    dv_cover("raw");
}

static void Window(int op) {
    uint64_t total = dv_len("total", kMax);
    int64_t offset = dv_i64("offset");
    int64_t length = dv_i64("length");
    dv_assume(total > 0);
#ifdef DV_NATIVE
    if (dv_bool("near")) {
        offset = static_cast<int64_t>(static_cast<uint64_t>(offset) % (total + 1));
        if (length != -1) length = static_cast<int64_t>(static_cast<uint64_t>(length) % (total - offset + 1));
    }
#else
    dv_bool("near");
#endif
    char* buf = static_cast<char*>(dv_alloc("buf", total, 1));
    auto src = std::make_shared<DvSource>(buf, total);
    Result<std::unique_ptr<OffsetInputStream>> r = OffsetInputStream::Create(src, length, offset);
    bool in = offset >= 0 && length >= -1 && static_cast<uint64_t>(offset) <= total &&
              (length == -1 || static_cast<uint64_t>(length) <= total - static_cast<uint64_t>(offset));
    dv_assert(r.ok() == in, "a window is created exactly inside the wrapped stream");
    if (!r.ok()) {
        dv_cover("window refused");
        return;
    }
    std::unique_ptr<OffsetInputStream> s = std::move(r).value();
    uint64_t n = length == -1 ? total - static_cast<uint64_t>(offset) : static_cast<uint64_t>(length);
    Result<int64_t> q = s->GetPos();
    dv_assert(q.ok() && q.value() == 0, "starts at 0");
    if (op < 0) {
        // first read without any seek
        CheckRead(s.get(), buf + offset, n, 0, dv_u32("size"));
        return;
    }
    Any(s.get(), buf + offset, n, op);
}
DV_ENTRY(window_first) { Window(-1); }
DV_ENTRY(window_read) { Window(0); }
DV_ENTRY(window_positioned) { Window(1); }
DV_ENTRY(window_async) { Window(2); }
DV_ENTRY(window_seek) { Window(3); }
DV_ENTRY(window_refused) { Window(4); }
DV_ENTRY(window_reads) { Window(5); }
DV_ENTRY(window_null) {
    Result<std::unique_ptr<OffsetInputStream>> r = OffsetInputStream::Create(nullptr, dv_i64("l"), dv_i64("o"));
    dv_assert(!r.ok(), "null stream refused");
    dv_cover("null");
}
DV_ENTRY(bad_origin) {
    char buf[8] = {0};
    auto src = std::make_shared<DvSource>(buf, 8);
    ByteArrayInputStream a(buf, 8);
    Result<std::unique_ptr<OffsetInputStream>> r = OffsetInputStream::Create(src, 4, 2);
    dv_assert(r.ok(), "window");
    int32_t o = dv_i32("o");
    dv_assume(o < 0 || o > 2);
    SeekOrigin origin = static_cast<SeekOrigin>(o);
    dv_assume(origin != FS_SEEK_SET && origin != FS_SEEK_CUR && origin != FS_SEEK_END);
    dv_assert(!a.Seek(1, origin).ok(), "unknown origin refused");
    dv_assert(!r.value()->Seek(1, origin).ok(), "unknown origin refused");
    dv_cover("origin");
}
