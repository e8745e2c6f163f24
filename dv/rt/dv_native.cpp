// Native side of the contract language: replays a counterexample on the real code, or searches
// for one with a seeded generator.  Exit 0: all contracts held, 1: a contract failed.
#include <cstdio>
#include <cstdlib>
#include <csetjmp>
#include <exception>
#include <map>
#include <csignal>
#include <sstream>
#include <string>
#include <sys/time.h>
#include <unistd.h>
#include <vector>

#include "dv.h"

namespace {
struct Skip {};
bool g_replay = false;
uint64_t g_rng = 1;
std::map<std::string, uint64_t> g_scalars;
std::map<std::string, std::vector<uint8_t>> g_bufs;
std::map<std::string, int> g_cnt;
uint64_t g_iter = 0;
std::string g_trace;
bool g_log = false;
std::map<std::string, uint64_t> g_covers;
uint64_t g_checks = 0;
bool g_sane = false;

uint64_t rnd() {
    g_rng += 0x9E3779B97F4A7C15ull;
    uint64_t z = g_rng;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
uint64_t gen(int bits) {
    uint64_t m = bits == 64 ? ~0ull : ((1ull << bits) - 1);
    switch (rnd() % 12) {
        case 0: return 0;
        case 1: return rnd() % 4;
        case 2: return rnd() % 20;
        case 3: return (m - rnd() % 4) & m;
        case 4: return ((1ull << (bits - 1)) - 1 - rnd() % 3) & m;
        case 5: return ((1ull << (bits - 1)) + rnd() % 3) & m;
        case 6: {
            uint64_t b = 1ull << (rnd() % bits);
            return (b + rnd() % 5 - 2) & m;
        }
        case 7: return (0 - (rnd() % 300)) & m;
        case 8: return rnd() & m & ((1ull << (rnd() % bits)) - 1);
        case 9: return rnd() % 300 & m;
        default: return rnd() & m;
    }
}
std::string key(const char* n) {
    std::string k(n);
    int c = g_cnt[k]++;
    return k + "#" + std::to_string(c);
}
uint64_t scalar(const char* n, int bits) {
    std::string k = key(n);
    uint64_t v;
    if (g_replay) {
        auto it = g_scalars.find(k);
        v = it == g_scalars.end() ? 0 : it->second;
    } else {
        v = gen(bits);
    }
    if (g_log) {
        std::ostringstream o;
        o << "  " << k << " = " << v << "\n";
        g_trace += o.str();
    }
    return v;
}
}  // namespace

extern "C" {
uint8_t dv_u8(const char* n) { return static_cast<uint8_t>(scalar(n, 8)); }
uint16_t dv_u16(const char* n) { return static_cast<uint16_t>(scalar(n, 16)); }
uint32_t dv_u32(const char* n) { return static_cast<uint32_t>(scalar(n, 32)); }
uint64_t dv_u64(const char* n) { return scalar(n, 64); }
bool dv_bool(const char* n) {
    if (g_replay) return scalar(n, 8) & 1;
    uint64_t v = rnd() & 1;
    if (g_log) g_trace += "  " + key(n) + " = " + std::to_string(v) + "\n";
    return v;
}
void dv_assume(bool c) {
    if (!c) throw Skip();
}
void dv_assert(bool c, const char* label) {
    g_checks++;
    if (!c) {
        printf("CONTRACT-FAILED %s\n%s", label, g_trace.c_str());
        fflush(stdout);
        _exit(1);
    }
}
void dv_cover(const char* l) { g_covers[l]++; }
void dv_stop() { throw Skip(); }
bool dv_fork() { return true; }
bool dv_split(bool c) { return c; }
uint64_t dv_skolem(const char*, uint64_t) { return 0; }
void* dv_alloc(const char* n, uint64_t bytes, uint32_t elem) {
    std::string k = key(n);
    uint8_t* p = static_cast<uint8_t*>(malloc(bytes ? bytes : 1));
    if (g_replay) {
        auto it = g_bufs.find(k);
        for (uint64_t i = 0; i < bytes; i++) p[i] = (it != g_bufs.end() && i < it->second.size()) ? it->second[i] : 0;
    } else {
        int mode = rnd() % 5;
        uint64_t base = rnd();
        for (uint64_t i = 0; i + elem <= bytes; i += elem) {
            uint64_t v;
            switch (mode) {
                case 0: v = rnd() % 3 + (base & 0x7c); break;
                case 1: v = base + (rnd() % 4) * (i / elem); break;
                case 2: v = rnd(); break;
                case 3: v = rnd() % 2 ? 0x61 + rnd() % 3 : gen(elem >= 8 ? 64 : elem * 8); break;
                default: v = gen(elem >= 8 ? 64 : elem * 8);
            }
            if (elem <= 8) {
                memcpy(p + i, &v, elem);
            } else {
                for (uint32_t j = 0; j + 8 <= elem; j += 8) {
                    memcpy(p + i + j, &v, 8);
                    v = gen(64);
                }
            }
        }
    }
    if (g_log) {
        std::ostringstream o;
        o << "  " << k << " = [" << bytes << " bytes]";
        static const char* hx = "0123456789abcdef";
        for (uint64_t i = 0; i < bytes && i < 256; i++) o << (i % 8 ? "" : " ") << hx[p[i] >> 4] << hx[p[i] & 15];
        g_trace += o.str() + "\n";
    }
    return p;
}
}
uint64_t dv_size_limit(uint64_t max) {
    if (g_replay) return max;
    static const uint64_t t[] = {0, 1, 2, 3, 5, 9, 17, 40};
    uint64_t r = t[rnd() % 8];
    return r < max ? r : max;
}

struct Entry {
    const char* name;
    void (*fn)();
};
extern Entry dv_entries[];

// the stack of the run is kept so that a sanitizer report still shows the inputs
extern "C" void dv_dump() { fprintf(stdout, "CONTRACT-FAILED crash\n%s", g_trace.c_str()); fflush(stdout); }
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#define DV_ASAN 1
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#define DV_ASAN 1
#endif

// a single case that uses 20 s of CPU time does not terminate for practical purposes
static void on_prof(int) {
    static const char m[] = "CONTRACT-FAILED does not terminate\n";
    if (write(1, m, sizeof(m) - 1) > 0 && write(1, g_trace.data(), g_trace.size()) >= 0) _exit(1);
    _exit(1);
}
static void on_abort(int) {
    static const char m[] = "CONTRACT-FAILED aborted\n";
    if (write(1, m, sizeof(m) - 1) > 0 && write(1, g_trace.data(), g_trace.size()) >= 0) _exit(1);
    _exit(1);
}
static void arm() {
    struct itimerval t = {};
    t.it_value.tv_sec = 20;
    setitimer(ITIMER_PROF, &t, nullptr);
}

static bool run(void (*f)()) {
    g_cnt.clear();
    g_trace.clear();
    arm();
    try {
        f();
        return true;
    } catch (Skip&) {
        return false;
    } catch (std::exception& e) {
        printf("CONTRACT-FAILED exception %s\n%s", e.what(), g_trace.c_str());
        fflush(stdout);
        _exit(1);
    }
    return true;
}

int main(int argc, char** argv) {
#ifdef DV_ASAN
    __sanitizer_set_death_callback(dv_dump);
#endif
    g_log = true;
    signal(SIGPROF, on_prof);
    signal(SIGABRT, on_abort);
    void (*f)() = nullptr;
    for (Entry* e = dv_entries; e->name; e++)
        if (std::string(e->name) == argv[1]) f = e->fn;
    if (!f) {
        printf("no entry\n");
        return 3;
    }
    std::string mode = argv[2];
    if (mode == "replay") {
        g_replay = true;
        FILE* fp = fopen(argv[3], "r");
        if (!fp) return 3;
        char k[512], ty[4];
        while (fscanf(fp, "%3s %500s", ty, k) == 2) {
            if (ty[0] == 's') {
                unsigned long long v;
                if (fscanf(fp, "%llu", &v) != 1) break;
                g_scalars[k] = v;
            } else if (ty[0] == 'b') {
                unsigned long long n;
                if (fscanf(fp, "%llu", &n) != 1) break;
                std::vector<uint8_t> b(n);
                for (auto& x : b) {
                    unsigned v;
                    if (fscanf(fp, "%u", &v) != 1) v = 0;
                    x = static_cast<uint8_t>(v);
                }
                g_bufs[k] = b;
            }
        }
        fclose(fp);
        if (!run(f)) {
            printf("SKIPPED precondition\n");
            return 0;
        }
        printf("HELD checks=%llu\n", (unsigned long long)g_checks);
        return 0;
    }
    uint64_t seed = strtoull(argv[3], nullptr, 10);
    uint64_t iters = strtoull(argv[4], nullptr, 10);
    double limit = argc > 5 ? atof(argv[5]) : 60;
    clock_t t0 = clock();
    uint64_t i = 0;
    for (; i < iters; i++) {
        g_rng = seed * 0x9E3779B97F4A7C15ull + i * 0xD1B54A32D192ED03ull + 12345;
        run(f);
        if ((i & 63) == 0 && (double)(clock() - t0) / CLOCKS_PER_SEC > limit) break;
    }
    printf("HELD iters=%llu checks=%llu\n", (unsigned long long)i, (unsigned long long)g_checks);
    for (auto& c : g_covers) printf("COVER %s %llu\n", c.first.c_str(), (unsigned long long)c.second);
    return 0;
}
