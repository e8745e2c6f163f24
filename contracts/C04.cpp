// The buffered stream gives the bytes and positions of the stream it wraps.
#include "paimon/io/buffered_input_stream.h"
#include "streams.h"
using namespace paimon;
constexpr uint64_t kMax = 1ull << 40;
struct World {
    uint64_t len;
    int32_t bs;
    char* file;
    DvPool pool;
    std::shared_ptr<DvSource> src;
    std::unique_ptr<BufferedInputStream> s;
    uint64_t p = 0;  // where a stream without a buffer would be
    World() {
        len = dv_len("len", kMax);
        dv_assume(len > 0);
        file = static_cast<char*>(dv_alloc("file", len, 1));
        src = std::make_shared<DvSource>(file, len);
#ifdef DV_NATIVE
        bs = static_cast<int32_t>(dv_in("bs", 1, 20));
#else
        bs = static_cast<int32_t>(dv_in("bs", 1, 0x7fffffff));
#endif
        s = std::make_unique<BufferedInputStream>(src, bs, &pool);
    }
    void Pos() {
        Result<int64_t> q = s->GetPos();
        dv_assert(q.ok() && q.value() == static_cast<int64_t>(p), "position");
    }
    void Read(const char* name, const char* dn, bool fits = false) {
        uint64_t size = dv_len(name, 0x7fffffff);
        if (fits) dv_assume(size <= len - p);
        if (fits) dv_split(size < static_cast<uint64_t>(bs));
        char* d = static_cast<char*>(dv_alloc(dn, size, 1));
        Result<int32_t> r = s->Read(d, static_cast<uint32_t>(size));
        dv_assert(r.ok() == (size <= len - p), "a read succeeds exactly when that much is left");
        if (r.ok()) {
            dv_assert(r.value() == static_cast<int32_t>(size), "all bytes delivered");
            DV_FORALL(i, size) { dv_assert(d[i] == file[p + i], "bytes of the file at the position"); }
            p += size;
            Pos();
            dv_cover("read");
        } else {
            Result<int64_t> q = s->GetPos();
            dv_assert(q.ok() && q.value() >= static_cast<int64_t>(p) && q.value() <= static_cast<int64_t>(len), "position stays in the file");
            p = static_cast<uint64_t>(q.value());
            dv_cover("refused");
        }
        free(d);
    }
    void Seek(const char* name, const char* on) {
        int64_t off = dv_i64(name);
        uint8_t o = dv_u8(on);
        dv_assume(o <= 2);
#ifdef DV_NATIVE
        if (off < -50 || off > 50) off %= 50;
#endif
        // no overflow of the target itself
        dv_assume(off >= -static_cast<int64_t>(kMax) && off <= static_cast<int64_t>(kMax));
        uint64_t base = o == 0 ? 0 : o == 1 ? p : len;
        int64_t to = static_cast<int64_t>(base) + off;
        Status st = s->Seek(off, o == 0 ? FS_SEEK_SET : o == 1 ? FS_SEEK_CUR : FS_SEEK_END);
        dv_assert(st.ok() == (to >= 0 && to <= static_cast<int64_t>(len)), "a seek succeeds exactly inside the file");
        if (st.ok()) {
            p = static_cast<uint64_t>(to);
            dv_cover("seek");
        }
        Pos();
    }
    void To(const char* name) {
        uint64_t to = dv_len(name, kMax);
        dv_assume(to <= len);
        dv_assert(s->Seek(static_cast<int64_t>(to), FS_SEEK_SET).ok(), "seek inside the file");
        p = to;
        Pos();
    }
};
DV_ENTRY(fresh) {
    World w;
    w.Pos();
    w.Read("a", "da");
    Result<uint64_t> l = w.s->Length();
    dv_assert(l.ok() && l.value() == w.len, "length");
}
// every buffer state is reached by a seek and one or two reads; each operation from there
DV_ENTRY(read_read) {
    World w;
    w.To("s");
    w.Read("a", "da");
    w.Read("b", "db");
}
DV_ENTRY(read_read_read) {
    World w;
    w.To("s");
    w.Read("a", "da", true);
    w.Read("b", "db", true);
    w.Read("c", "dc");
}
// the buffer is full and consumed to its last byte
DV_ENTRY(consumed_read) {
    World w;
    w.To("s");
    dv_assume(w.bs >= 2 && static_cast<uint64_t>(w.bs) <= w.len - w.p);
    char* d = static_cast<char*>(dv_alloc("d", static_cast<uint64_t>(w.bs), 1));
    Result<int32_t> r = w.s->Read(d, static_cast<uint32_t>(w.bs - 1));
    dv_assert(r.ok() && r.value() == w.bs - 1, "first read");
    Result<int32_t> q = w.s->Read(d + (w.bs - 1), 1);
    dv_assert(q.ok() && q.value() == 1, "last byte");
    DV_FORALL(i, static_cast<uint64_t>(w.bs)) { dv_assert(d[i] == w.file[w.p + i], "bytes of the file at the position"); }
    w.p += static_cast<uint64_t>(w.bs);
    w.Pos();
    w.Read("b", "db");
}
DV_ENTRY(read_seek_read) {
    World w;
    w.To("s");
    w.Read("a", "da", true);
    w.Seek("t", "o");
    w.Read("b", "db");
}
DV_ENTRY(read_read_seek) {
    World w;
    w.To("s");
    w.Read("a", "da", true);
    w.Read("b", "db");
    w.Seek("t", "o");
}
DV_ENTRY(positioned) {
    World w;
    w.To("s");
    w.Read("a", "da", true);
    char d[4];
    Result<int32_t> r = w.s->Read(d, 4, dv_u64("at"));
    dv_assert(!r.ok(), "positioned reads are refused");
    int calls = 0;
    bool ok = true;
    w.s->ReadAsync(d, 4, dv_u64("at"), [&](Status x) {
        calls++;
        ok = x.ok();
    });
    dv_assert(calls == 1 && !ok, "asynchronous reads are refused");
    w.Pos();
    w.Read("b", "db");
}
DV_ENTRY(search_history) {
#ifdef DV_NATIVE
    World w;
    static const char* n[] = {"a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7"};
    static const char* dn[] = {"d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7"};
    static const char* on[] = {"o0", "o1", "o2", "o3", "o4", "o5", "o6", "o7"};
    for (int i = 0; i < 8; i++) {
        if (dv_u8(on[i]) % 4 == 3) w.Seek(n[i], on[i]);
        else w.Read(n[i], dn[i]);
    }
    dv_cover("history");
#endif
}
