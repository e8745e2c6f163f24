// Local files: the transfer loops against every answer of the operating system.  The source file is
// compiled here as it is; only the names of the system calls lead to the stand-ins below.
#include <dirent.h>
#include <fcntl.h>
#include <stdio.h>
#include <sys/stat.h>
#include <unistd.h>

#include <cerrno>
#include <cstdio>
#include <cstring>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "dv.h"
#include "fmt/format.h"
#include "paimon/common/factories/io_hook.h"
#include "paimon/common/utils/path_util.h"
#include "paimon/fs/local/local_file_status.h"
#include "paimon/result.h"
#include "paimon/status.h"

// what the operating system holds and how it answers
static struct Os {
    char* data;         // content of the file, or what was written
    uint64_t len;       // size of the file
    uint64_t pos;       // position of the open file
    uint32_t calls;     // transfers so far
    uint32_t limit;     // transfers considered
    bool failed;        // some call answered with an error
    bool err, eof;      // indicators of the open file
    bool open;
    bool sure;          // no error answers
    int fail_errno;
} os;
static char os_token[8];
static FILE* OsFile() { return reinterpret_cast<FILE*>(os_token); }
static bool Fails() {
    if (os.sure) return false;
    bool f = dv_u8("fails") == 1;
    if (f) {
        os.failed = true;
        errno = os.fail_errno;
    }
    return f;
}
// how much of at most m bytes goes through: at least one
static uint64_t Part(uint64_t m) {
    uint64_t k = dv_u32("part");
#ifdef DV_NATIVE
    if (k > m || k == 0) k = (k & 1) ? m : 1 + k % m;
#endif
    dv_assume(k >= 1 && k <= m);
    return k;
}
static void Step() {
    os.calls++;
    dv_assume(os.calls <= os.limit);
}
static uint64_t Rest(uint64_t at, uint64_t n) {
    uint64_t rest = at < os.len ? os.len - at : 0;
    return n < rest ? n : rest;
}
extern "C" {
ssize_t dv_os_pread(int, void* b, size_t n, off_t at) {
    Step();
    if (Fails()) return -1;
    if (at < 0) {
        os.failed = true;
        errno = EINVAL;
        return -1;
    }
    uint64_t m = Rest(static_cast<uint64_t>(at), n);
    if (m == 0) return 0;
    uint64_t k = Part(m);
    memcpy(b, os.data + at, k);
    return static_cast<ssize_t>(k);
}
size_t dv_os_fread(void* b, size_t size, size_t n, FILE* f) {
    dv_assert(f == OsFile() && os.open, "the open file is used");
    dv_assert(size == 1, "transfers are counted in bytes");
    Step();
    uint64_t m = Rest(os.pos, n);
    if (Fails()) {
        os.err = true;
        return 0;
    }
    uint64_t k = m == 0 ? 0 : Part(m);
    memcpy(b, os.data + os.pos, k);
    os.pos += k;
    if (k < n && os.pos >= os.len) os.eof = true;
    return k;
}
size_t dv_os_fwrite(const void* b, size_t size, size_t n, FILE* f) {
    dv_assert(f == OsFile() && os.open, "the open file is used");
    dv_assert(size == 1, "transfers are counted in bytes");
    Step();
    if (Fails()) {
        os.err = true;
        return 0;
    }
    uint64_t k = n == 0 ? 0 : Part(n);
    dv_assert(k <= os.len - os.pos, "no more than given is written");
    if (k > os.len - os.pos) return 0;
    memcpy(os.data + os.pos, b, k);
    os.pos += k;
    return k;
}
int dv_os_ferror(FILE*) { return os.err; }
int dv_os_feof(FILE*) { return os.eof; }
void dv_os_clearerr(FILE*) { os.err = os.eof = false; }
int dv_os_fileno(FILE*) { return 7; }
FILE* dv_os_fopen(const char*, const char*) {
    if (Fails()) return nullptr;
    os.open = true;
    return OsFile();
}
int dv_os_fclose(FILE* f) {
    dv_assert(f == OsFile() && os.open, "the open file is closed once");
    os.open = false;
    return Fails() ? EOF : 0;
}
int dv_os_fflush(FILE*) { return Fails() ? EOF : 0; }
int dv_os_fsync(int) { return Fails() ? -1 : 0; }
int dv_os_fseek(FILE*, long at, int whence) {
    if (Fails()) return -1;
    os.pos = static_cast<uint64_t>(at) + (whence == SEEK_SET ? 0 : whence == SEEK_CUR ? os.pos : os.len);
    return 0;
}
long dv_os_ftell(FILE*) { return Fails() ? -1 : static_cast<long>(os.pos); }
int dv_os_access(const char*, int) { return 0; }
int dv_os_stat(const char*, struct stat* s) {
    memset(s, 0, sizeof *s);
    s->st_mode = S_IFREG;
    s->st_size = static_cast<off_t>(os.len);
    return 0;
}
int dv_os_none() { return -1; }
}
namespace std {
using ::dv_os_clearerr;
using ::dv_os_fclose;
using ::dv_os_feof;
using ::dv_os_ferror;
using ::dv_os_fflush;
using ::dv_os_fopen;
using ::dv_os_fread;
using ::dv_os_fseek;
using ::dv_os_ftell;
using ::dv_os_fwrite;
}  // namespace std
#undef ferror
#undef feof
#undef clearerr
#undef fileno
#define pread dv_os_pread
#define pread64 dv_os_pread
#define fread dv_os_fread
#define fwrite dv_os_fwrite
#define ferror dv_os_ferror
#define feof dv_os_feof
#define clearerr dv_os_clearerr
#define fileno dv_os_fileno
#define fopen dv_os_fopen
#define fclose dv_os_fclose
#define fflush dv_os_fflush
#define fsync dv_os_fsync
#define fdatasync dv_os_fsync
#define fseek dv_os_fseek
#define fseeko dv_os_fseek
#define ftell dv_os_ftell
#define ftello dv_os_ftell
#define access(p, m) dv_os_access(p, m)
#define stat(p, b) dv_os_stat(p, b)
#define remove(p) dv_os_none()
#define mkdir(p, m) dv_os_none()
#define opendir(p) (static_cast<DIR*>(nullptr))
#include "paimon/fs/local/local_file.cpp"
#undef stat
#undef remove
namespace paimon {
// only for listing directories, which is not part of this contract
__attribute__((weak)) std::string PathUtil::JoinPath(const std::string& a, const std::string& b) noexcept { return a + "/" + b; }
}  // namespace paimon
using namespace paimon;

static const uint64_t kBig = 1ull << 40;
static void Start(uint64_t len, uint32_t limit, const char* name) {
    os = Os();
    os.len = len;
    os.data = static_cast<char*>(dv_alloc(name, len, 1));
    os.limit = limit;
    os.fail_errno = EIO;
}
static uint32_t Length(const char* name) {
    uint32_t n = dv_u32(name);
#ifdef DV_NATIVE
    if (n > 0x7fffffffu || n > (1u << 22)) n %= dv_size_limit(1 << 20) + 1;
#endif
    dv_assume(n <= 0x7fffffffu);
    return n;
}
static void Open(LocalFile* f, bool reading) {
    os.sure = true;
    Status s = f->OpenFile(reading);
    dv_assert(s.ok(), "opened");
    os.sure = false;
}
static void ReadAt(uint32_t limit) {
    Start(dv_len("len", kBig), limit, "file");
    LocalFile f("f");
    Open(&f, true);
    uint32_t n = Length("n");
    uint64_t at = dv_u64("at");
#ifdef DV_NATIVE
    if (at & 1) at = (at >> 1) % (os.len + 2);
#endif
    dv_assume(at <= INT64_MAX - 0x7fffffffull);
    char* b = static_cast<char*>(dv_alloc("b", n, 1));
    auto r = f.Read(b, n, at);
    if (os.failed) {
        dv_assert(!r.ok(), "a system error is reported");
        dv_cover("error");
    } else {
        uint64_t want = Rest(at, n);
        dv_assert(r.ok(), "no error without a system error");
        if (!r.ok()) return;
        dv_assert(static_cast<uint64_t>(r.value()) == want, "all requested bytes up to the end of the file");
        DV_FORALL(i, want) { dv_assert(b[i] == os.data[at + i], "the bytes of the file in order"); }
        dv_cover("read");
    }
    dv_assert(os.pos == 0, "the position stays");
}
DV_ENTRY(read_at1) { ReadAt(1); }
DV_ENTRY(read_at2) { ReadAt(2); }
DV_ENTRY(read_at8) { ReadAt(8); }
static void ReadNext(uint32_t limit) {
    Start(dv_len("len", kBig), limit, "file");
    LocalFile f("f");
    Open(&f, true);
    uint32_t n = Length("n");
    uint64_t at = dv_len("at", os.len);
    os.pos = at;
    char* b = static_cast<char*>(dv_alloc("b", n, 1));
    auto r = f.Read(b, n);
    if (os.failed) {
        dv_assert(!r.ok(), "a system error is reported");
        dv_cover("error");
        return;
    }
    uint64_t want = Rest(at, n);
    dv_assert(r.ok(), "no error without a system error");
    if (!r.ok()) return;
    dv_assert(static_cast<uint64_t>(r.value()) == want, "all requested bytes up to the end of the file");
    dv_assert(os.pos == at + want, "the position advances by the bytes read");
    DV_FORALL(i, want) { dv_assert(b[i] == os.data[at + i], "the bytes of the file in order"); }
    dv_cover("read");
}
DV_ENTRY(read1) { ReadNext(1); }
DV_ENTRY(read2) { ReadNext(2); }
DV_ENTRY(read8) { ReadNext(8); }
static void Write(uint32_t limit) {
    uint32_t n = Length("n");
    uint64_t at = dv_len("at", kBig);
    Start(at + n, limit, "file");
    LocalFile f("f");
    Open(&f, false);
    os.pos = at;
    char* b = static_cast<char*>(dv_alloc("b", n, 1));
    auto r = f.Write(b, n);
    if (os.failed) {
        dv_assert(!r.ok(), "a system error is reported");
        dv_cover("error");
        return;
    }
    dv_assert(r.ok(), "no error without a system error");
    if (!r.ok()) return;
    dv_assert(static_cast<uint32_t>(r.value()) == n, "all given bytes");
    dv_assert(os.pos == at + n, "the position advances by the bytes written");
    DV_FORALL(i, n) { dv_assert(os.data[at + i] == b[i], "the given bytes in order"); }
    dv_cover("write");
}
DV_ENTRY(write1) { Write(1); }
DV_ENTRY(write2) { Write(2); }
DV_ENTRY(write8) { Write(8); }
// byte by byte transfers of short requests
DV_ENTRY(search_read) { ReadNext(64); }
DV_ENTRY(search_read_at) { ReadAt(64); }
DV_ENTRY(search_write) { Write(64); }

// more than fits a 32-bit signed count
DV_ENTRY(too_long) {
    char b[4] = {1, 2, 3, 4};
    Start(4, 8, "file");
    os.sure = true;
    LocalFile f("f");
    dv_assert(f.OpenFile(true).ok(), "opened");
    uint32_t n = dv_u32("n");
#ifdef DV_NATIVE
    n |= 0x80000000u;
#endif
    dv_assume(n > 0x7fffffffu);
    dv_assert(!f.Read(b, n).ok(), "a length above the signed maximum is refused");
    dv_assert(!f.Read(b, n, 0).ok(), "a length above the signed maximum is refused");
    dv_assert(!f.Write(b, n).ok(), "a length above the signed maximum is refused");
    dv_assert(os.calls == 0, "nothing is transferred");
    dv_cover("refused");
}
// without an open file everything is an error
static void Unusable(LocalFile* f) {
    char b[4];
    uint32_t n = dv_u32("n");
    os.sure = true;
    os.open = false;
    dv_assert(!f->Read(b, n).ok(), "no read without an open file");
    dv_assert(!f->Read(b, n, dv_u64("at")).ok(), "no read without an open file");
    dv_assert(!f->Write(b, n).ok(), "no write without an open file");
    dv_assert(!f->Flush().ok(), "no flush without an open file");
    dv_assert(!f->Seek(dv_i64("to"), SEEK_SET).ok(), "no seek without an open file");
    dv_assert(!f->Tell().ok(), "no position without an open file");
    dv_assert(os.calls == 0, "nothing is transferred");
}
DV_ENTRY(not_open) {
    Start(4, 8, "file");
    LocalFile f("f");
    Unusable(&f);
    dv_cover("not open");
}
DV_ENTRY(closed) {
    Start(4, 8, "file");
    LocalFile f("f");
    Open(&f, dv_u8("reading") & 1);
    Status s = f.Close();
    dv_assert(s.ok() == !os.failed, "a failed close is reported");
    dv_assert(!os.open, "closed");
    Unusable(&f);
    dv_assert(f.Close().ok(), "closing again does nothing");
    dv_cover("closed");
}
DV_ENTRY(open_fails) {
    Start(4, 8, "file");
    LocalFile f("f");
    Status s = f.OpenFile(dv_u8("reading") & 1);
    dv_assert(s.ok() == !os.failed, "a failed open is reported");
    if (!s.ok()) Unusable(&f);
    dv_cover("open");
}
DV_ENTRY(others) {
    Start(dv_len("len", kBig), 8, "file");
    LocalFile f("f");
    Open(&f, true);
    int64_t to = dv_in("to", 0, INT64_MAX / 4);
    uint64_t was = dv_len("was", kBig);
    os.pos = was;
    bool cur = dv_u8("cur") & 1;
    Status s = f.Seek(to, cur ? SEEK_CUR : SEEK_SET);
    dv_assert(s.ok() == !os.failed, "a failed seek is reported");
    dv_assert(!s.ok() || os.pos == (cur ? was : 0) + to, "the position asked for");
    os.failed = false;
    auto t = f.Tell();
    dv_assert(t.ok() == !os.failed, "a failed position is reported");
    dv_assert(!t.ok() || t.value() == static_cast<int64_t>(os.pos), "the position of the file");
    os.failed = false;
    Status u = f.Flush();
    dv_assert(u.ok() == !os.failed, "a failed flush is reported");
    dv_cover("others");
}
