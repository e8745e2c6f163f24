// Contract-level stand-ins for the abstract collaborators of the stream classes: a pool, a sink that
// records what it is given, and a source that delivers exactly what is asked for or an error.
#pragma once
#include <cstdlib>
#include <functional>

#include "dv.h"
#include "paimon/fs/file_system.h"
#include "paimon/memory/memory_pool.h"
#include "paimon/result.h"
#include "paimon/status.h"

namespace paimon {
struct DvPool : public MemoryPool {
    void* Malloc(uint64_t size, uint64_t) override { return malloc(size); }
    void* Realloc(void* p, size_t, size_t n, uint64_t) override { return realloc(p, n); }
    void Free(void* p, uint64_t) override { free(p); }
    uint64_t CurrentUsage() const override { return 0; }
    uint64_t MaxMemoryUsage() const override { return 0; }
};

// accepts at most `room` bytes per call
struct DvSink : public OutputStream {
    char* buf;
    uint64_t n = 0;
    uint64_t room = ~0ull;
    explicit DvSink(char* b) : buf(b) {}
    Result<int32_t> Write(const char* p, uint32_t size) override {
        uint32_t k = size < room ? size : static_cast<uint32_t>(room);
        memcpy(buf + n, p, k);
        n += k;
        return static_cast<int32_t>(k);
    }
    Status Flush() override { return Status::OK(); }
    Result<int64_t> GetPos() const override { return static_cast<int64_t>(n); }
    Result<std::string> GetUri() const override { return std::string(); }
    Status Close() override { return Status::OK(); }
};

// a file of `len` bytes; every operation that would leave the file is an error without effect
struct DvSource : public InputStream {
    const char* buf;
    uint64_t len;
    uint64_t pos = 0;
    uint64_t reads = 0;
    DvSource(const char* b, uint64_t l) : buf(b), len(l) {}
    Status Seek(int64_t offset, SeekOrigin origin) override {
        int64_t base = origin == FS_SEEK_SET ? 0 : origin == FS_SEEK_CUR ? static_cast<int64_t>(pos) : static_cast<int64_t>(len);
        if (offset < -base || offset > static_cast<int64_t>(len) - base) return Status::Invalid("seek");
        pos = static_cast<uint64_t>(base + offset);
        return Status::OK();
    }
    Result<int64_t> GetPos() const override { return static_cast<int64_t>(pos); }
    Result<int32_t> Read(char* b, uint32_t size) override {
        reads++;
        if (size > len - pos) return Status::Invalid("read");
        memcpy(b, buf + pos, size);
        pos += size;
        return static_cast<int32_t>(size);
    }
    Result<int32_t> Read(char* b, uint32_t size, uint64_t offset) override {
        if (offset > len || size > len - offset) return Status::Invalid("read");
        memcpy(b, buf + offset, size);
        return static_cast<int32_t>(size);
    }
    void ReadAsync(char* b, uint32_t size, uint64_t offset, std::function<void(Status)>&& cb) override {
        Result<int32_t> r = Read(b, size, offset);
        cb(r.status());
    }
    Result<uint64_t> Length() const override { return len; }
    Result<std::string> GetUri() const override { return std::string(); }
    Status Close() override { return Status::OK(); }
};
}  // namespace paimon
