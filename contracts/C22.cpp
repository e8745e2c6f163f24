// Partition paths.
#include "dv.h"
#include "paimon/core/utils/partition_path_utils.h"
using namespace paimon;
using Spec = std::vector<std::pair<std::string, std::string>>;
// characters that may not stand in a path element
static bool Unsafe(uint8_t c) {
    const uint64_t lo = 0xffffffffull | 1ull << '"' | 1ull << '#' | 1ull << '%' | 1ull << '\'' | 1ull << '*' | 1ull << '/' | 1ull << ':' | 1ull << '=' | 1ull << '?';
    const uint64_t hi = 1ull << ('\\' - 64) | 1ull << ('{' - 64) | 1ull << ('}' - 64) | 1ull << ('[' - 64) | 1ull << (']' - 64) | 1ull << ('^' - 64) | 1ull << (127 - 64);
    return ((c < 64) & (lo >> (c & 63) & 1)) | ((c >= 64) & (c < 128) & (hi >> (c & 63) & 1));
}
static char Hex(uint8_t d) { return static_cast<char>('0' + d + (d > 9) * ('A' - '0' - 10)); }
struct Text {
    char b[400];
    uint64_t n = 0;
    void Put(char c) { b[n++] = c; }
    void Name(const std::string& s) {
        for (uint64_t i = 0; i < s.size(); i++) {
            auto c = static_cast<uint8_t>(s[i]);
            if (Unsafe(c)) {
                Put('%');
                Put(Hex(c >> 4));
                Put(Hex(c & 15));
            } else {
                Put(s[i]);
            }
        }
    }
    void Is(const std::string& s, const char* what) const {
        dv_assert(s.size() == n, what);
        for (uint64_t i = 0; i < n; i++) dv_assert(s[i] == b[i], what);
    }
};
static uint8_t Digit(char c) { return static_cast<uint8_t>(c - '0' - (c >= 'A') * ('A' - '0' - 10)); }
static std::string Name(const char* what, uint64_t n) {
    std::string s;
    for (uint64_t i = 0; i < n; i++) s.push_back(static_cast<char>(dv_u8(what)));
    return s;
}
static void Escape(const std::string& s) {
    auto r = PartitionPathUtils::EscapePathName(s);
    dv_assert(r.ok() == !s.empty(), "exactly the empty name is refused");
    if (!r.ok()) {
        dv_cover("refused");
        return;
    }
    std::string e = r.value();
    Text t;
    t.Name(s);
    t.Is(e, "exactly the unsafe characters are escaped");
    // reading the escapes gives the name back
    uint64_t at = 0;
    for (uint64_t i = 0; i < s.size(); i++) {
        dv_assert(at < e.size(), "escaped text covers the name");
        if (e[at] == '%') {
            dv_assert(e.size() - at >= 3, "escape complete");
            dv_assert(static_cast<char>(Digit(e[at + 1]) << 4 | Digit(e[at + 2])) == s[i], "the name is read back");
            at += 3;
            dv_cover("escaped");
        } else {
            dv_assert(e[at] == s[i], "the name is read back");
            at += 1;
            dv_cover("plain");
        }
    }
    dv_assert(at == e.size(), "nothing else in the escaped text");
}
DV_ENTRY(escape0) { Escape(""); }
DV_ENTRY(escape1) { Escape(Name("c", 1)); }
DV_ENTRY(escape2) { Escape(Name("c", 2)); }
DV_ENTRY(escape3) { Escape(Name("c", 3)); }
// two different names never share their escaped form
static void Apart(uint64_t n, uint64_t m) {
    std::string a = Name("a", n), b = Name("b", m);
    bool same = n == m;
    for (uint64_t i = 0; i < n && i < m; i++) same = same && a[i] == b[i];
    auto ra = PartitionPathUtils::EscapePathName(a), rb = PartitionPathUtils::EscapePathName(b);
    dv_assert(ra.ok() && rb.ok(), "names escaped");
    if (!ra.ok() || !rb.ok()) return;
    const std::string &x = ra.value(), &y = rb.value();
    bool eq = x.size() == y.size();
    for (uint64_t i = 0; i < x.size() && i < y.size(); i++) eq = eq && x[i] == y[i];
    dv_assert(eq == same, "same path exactly for the same name");
    dv_cover("apart");
}
DV_ENTRY(apart11) { Apart(1, 1); }
DV_ENTRY(apart12) { Apart(1, 2); }
DV_ENTRY(apart13) { Apart(1, 3); }
DV_ENTRY(apart22) { Apart(2, 2); }

static void Paths(const Spec& spec) {
    bool blank = false;
    for (const auto& kv : spec) blank = blank || kv.first.empty() || kv.second.empty();
    auto r = PartitionPathUtils::GeneratePartitionPath(spec);
    auto h = PartitionPathUtils::GenerateHierarchicalPartitionPaths(spec);
    dv_assert(r.ok() == !blank && h.ok() == !blank, "exactly specifications with an empty part are refused");
    if (!r.ok() || !h.ok()) {
        dv_cover("refused");
        return;
    }
    const auto& paths = h.value();
    dv_assert(paths.size() == spec.size(), "one path per prefix");
    Text t;
    for (uint64_t i = 0; i < spec.size(); i++) {
        t.Name(spec[i].first);
        t.Put('=');
        t.Name(spec[i].second);
        t.Put('/');
        t.Is(paths[i], "path of the prefix");
    }
    t.Is(r.value(), "directories in the order given");
    dv_cover("paths");
}
DV_ENTRY(paths0) { Paths({}); }
DV_ENTRY(paths1) { Paths({{Name("k", 1), Name("v", 2)}}); }
DV_ENTRY(paths2) { Paths({{Name("k", 1), Name("v", 1)}, {"p", Name("w", 1)}}); }
DV_ENTRY(paths3) { Paths({{"a", Name("u", 1)}, {"b", "1"}, {"c", Name("w", 1)}}); }
DV_ENTRY(paths_blank) { Paths({{"a", "1"}, {Name("k", 1), ""}, {"c", "3"}}); }
DV_ENTRY(paths_blank_key) { Paths({{"", Name("v", 1)}}); }
DV_ENTRY(search_escape) { Escape(Name("c", dv_len("n", 40))); }
DV_ENTRY(search_paths) {
    Spec s;
    uint64_t k = dv_len("k", 4);
    for (uint64_t i = 0; i < k; i++) {
        std::string key = Name("kc", 1 + dv_len("kn", 6)), val = Name("vc", 1 + dv_len("vn", 6));
        if (dv_u8("blank") < 4) val.clear();
        s.emplace_back(key, val);
    }
    Paths(s);
}
