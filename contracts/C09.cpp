// Operations on binary strings against the same operations on the flat UTF-8 text.
#include "text.h"
using namespace paimon;
constexpr uint64_t kMax = 0x07ffffff;
constexpr uint64_t kChars = 64;
// byte where character number c starts, n when there are fewer
static uint64_t ByteOf(const bool* start, uint64_t n, int64_t c) {
    int64_t seen = 0;
    for (uint64_t i = 0; i < n; i++) {
        if (!start[i]) continue;
        if (seen >= c) return i;
        seen++;
    }
    return n;
}
static bool Match(const DvText& a, const DvText& b, uint64_t pos) {
    if (b.n > a.n || pos > a.n - b.n) return false;
    bool same = true;
    for (uint64_t i = 0; i < b.n; i++) same = same & (a.text[pos + i] == b.text[i]);
    return same;
}
struct One {
    DvPool pool;
    DvText a;
    bool start[kChars];
    uint64_t chars = 0;
    One(uint64_t k, uint64_t n, uint64_t max, bool text = true) {
        a.Any("p", "ss", "ls", "o", k, n, max, &pool);
        if (text) chars = a.Chars(start, &pool);
        a.Cases();
    }
};
static void Count(uint64_t k, uint64_t n, uint64_t max = kMax) {
    One t(k, n, max);
    dv_assert(static_cast<uint64_t>(t.a.Str().NumChars()) == t.chars, "number of characters");
    dv_cover("counted");
}
static int32_t Index(const char* name, uint64_t n) {
    int32_t v = static_cast<int32_t>(dv_u32(name));
#ifdef DV_NATIVE
    if (dv_bool("small")) v = static_cast<int32_t>(static_cast<uint32_t>(v) % (n + 2));
#endif
    dv_assume(v >= 0);
    return v;
}
static void Sub(uint64_t k, uint64_t n, uint64_t max = kMax) {
    One t(k, n, max);
    int32_t begin = Index("begin", n), end = Index("end", n);
    uint64_t i = ByteOf(t.start, n, begin), j = ByteOf(t.start, n, end);
    BinaryString r = t.a.Str().Substring(begin, end, &t.pool);
    DvIs(r, t.a.text + i, j > i ? j - i : 0, &t.pool, "characters from begin up to end");
    dv_cover("substring");
}
static void Flat(uint64_t k, uint64_t n, uint64_t max = kMax) {
    One t(k, n, max, false);
    BinaryString s = t.a.Str();
    std::string str = s.ToString();
    dv_assert(str.size() == n, "length of the text");
    for (uint64_t i = 0; i < n; i++) {
        dv_assert(str[i] == t.a.text[i], "bytes of the text");
        dv_assert(s.ByteAt(static_cast<int32_t>(i)) == t.a.text[i], "byte at a position");
    }
    DvIs(s.Copy(&t.pool), t.a.text, n, &t.pool, "copy has the bytes");
    DvIs(BinaryString::FromString(str, &t.pool), t.a.text, n, &t.pool, "string made of a text has its bytes");
    dv_cover("flat");
}
static void Part(uint64_t k, uint64_t n, uint64_t max = kMax) {
    One t(k, n, max, false);
    BinaryString s = t.a.Str();
    for (uint64_t i = 0; i < n; i++)
        for (uint64_t j = i; j < n; j++)
            DvIs(s.CopyBinaryString(static_cast<int32_t>(i), static_cast<int32_t>(j), &t.pool), t.a.text + i, j - i + 1, &t.pool,
                 "copy of a part has its bytes");
    dv_cover("part");
}
static void Case(uint64_t k, uint64_t n, bool upper, uint64_t max = kMax) {
    One t(k, n, max);
    BinaryString s = t.a.Str();
    BinaryString r = upper ? s.ToUpperCase(&t.pool) : s.ToLowerCase(&t.pool);
    for (uint64_t i = 0; i < n; i++) {
        char c = t.a.text[i];
        char from = upper ? 'a' : 'A';
        t.a.text[i] = static_cast<uint8_t>(c - from) < 26 ? static_cast<char>(c ^ 32) : c;
    }
    DvIs(r, t.a.text, n, &t.pool, upper ? "letters in upper case, the rest as it was" : "letters in lower case, the rest as it was");
    dv_cover("case");
}
struct Two {
    DvPool pool;
    DvText a, b;
    bool start[kChars], start2[kChars];
    uint64_t chars = 0;
    Two(uint64_t k1, uint64_t n1, uint64_t k2, uint64_t n2, uint64_t max, bool text) {
        a.Any("p", "ss", "ls", "o", k1, n1, max, &pool);
        b.Any("q", "ss2", "ls2", "o2", k2, n2, max, &pool);
#ifdef DV_NATIVE
        // small alphabet, or a part of the text
        if (dv_bool("few")) {
            static const char few[] = "ab\xc3\xa4\xe4\xb8\xad\xe4\xb8\xa4";
            for (uint64_t i = 0; i < n1; i++) a.text[i] = few[static_cast<uint8_t>(a.text[i]) % 10];
            for (uint64_t i = 0; i < n2; i++) b.text[i] = few[static_cast<uint8_t>(b.text[i]) % 10];
        }
        a.Build(&pool);
        if (text) a.Chars(start, &pool);
        if (n2 && n2 <= n1 && dv_bool("within")) memcpy(b.text, a.text + dv_len("at", n1 - n2), n2);
        b.Build(&pool);
#endif
        if (text) {
            chars = a.Chars(start, &pool);
            b.Chars(start2, &pool);
        }
        a.Cases();
        b.Cases();
    }
};
static void Find(uint64_t k1, uint64_t n1, uint64_t k2, uint64_t n2, uint64_t max = kMax) {
    Two t(k1, n1, k2, n2, max, true);
    int32_t from = Index("from", n1);
    int64_t want = -1, c = static_cast<int64_t>(t.chars);
    for (uint64_t i = n1; i-- > 0;) {
        if (!t.start[i]) continue;
        c--;
        if (c >= from && Match(t.a, t.b, i)) want = c;
    }
    if (n2 == 0) want = 0;
    dv_assert(t.a.Str().IndexOf(t.b.Str(), from) == want, "first character position from the given one where the pattern is");
    dv_cover("find");
}
static void Has(uint64_t k1, uint64_t n1, uint64_t k2, uint64_t n2, int what, uint64_t max = kMax) {
    Two t(k1, n1, k2, n2, max, false);
    BinaryString s = t.a.Str(), p = t.b.Str();
    if (what == 0) {
        bool any = false;
        for (uint64_t i = 0; n2 <= n1 && i <= n1 - n2; i++) any = any | Match(t.a, t.b, i);
        dv_assert(s.Contains(p) == any, "contains exactly when the pattern is somewhere");
    } else {
        dv_assert(s.StartsWith(p) == Match(t.a, t.b, 0), "starts with the prefix exactly when it is there");
        dv_assert(s.EndsWith(p) == (n2 <= n1 && Match(t.a, t.b, n1 - n2)), "ends with the suffix exactly when it is there");
    }
    dv_cover("has");
}
#define ONE(k, n)                                             \
    DV_ENTRY(chars##k##_##n) { Count(k, n); }                 \
    DV_ENTRY(sub##k##_##n) { Sub(k, n); }                     \
    DV_ENTRY(flat##k##_##n) { Flat(k, n); }                   \
    DV_ENTRY(part##k##_##n) { Part(k, n); }                   \
    DV_ENTRY(upper##k##_##n) { Case(k, n, true); }            \
    DV_ENTRY(lower##k##_##n) { Case(k, n, false); }
ONE(1, 0)
ONE(1, 1)
ONE(1, 3)
ONE(1, 4)
ONE(2, 0)
ONE(2, 2)
ONE(2, 3)
ONE(2, 4)
ONE(3, 3)
#define TWO(k1, n1, k2, n2)                                                        \
    DV_ENTRY(find##k1##_##n1##_##k2##_##n2) { Find(k1, n1, k2, n2); }              \
    DV_ENTRY(contains##k1##_##n1##_##k2##_##n2) { Has(k1, n1, k2, n2, 0); }        \
    DV_ENTRY(ends##k1##_##n1##_##k2##_##n2) { Has(k1, n1, k2, n2, 1); }
TWO(1, 2, 1, 0)
TWO(1, 1, 1, 2)
TWO(1, 4, 1, 1)
TWO(1, 4, 1, 2)
TWO(2, 3, 1, 1)
TWO(1, 3, 2, 2)
TWO(2, 2, 2, 1)
DV_ENTRY(blank) {
    DvPool pool;
    for (int32_t n = 0; n < 6; n++) {
        BinaryString s = BinaryString::BlankString(n, &pool);
        DvIs(s, "      ", n, &pool, "a blank string is so many spaces");
    }
    dv_cover("blank");
}
DV_ENTRY(first_byte) {
    char p[4];
    uint64_t n = dv_len("n", 4);
    char* q = static_cast<char*>(dv_alloc("p", 4, 1));
    for (int i = 0; i < 4; i++) p[i] = q[i];
#ifdef DV_NATIVE
    DvMakeText(p, 4);
#endif
    uint64_t c = DvChar(p, n);
    dv_assume(c > 0);
    dv_assert(static_cast<uint64_t>(BinaryString::NumBytesForFirstByte(p[0])) == c, "bytes of a character from its first byte");
    dv_cover("first");
}
DV_ENTRY(search_one) {
    uint64_t k = 1 + dv_len("k", 5), n = dv_len("n", 24);
    switch (dv_u8("what") % 6) {
        case 0: Count(k, n, 12); break;
        case 1: Sub(k, n, 12); break;
        case 2: Flat(k, n, 12); break;
        case 3: Part(k, n % 8, 12); break;
        case 4: Case(k, n, true, 12); break;
        default: Case(k, n, false, 12);
    }
}
DV_ENTRY(search_ascii) {
    DvPool pool;
    uint64_t n = dv_len("n", 40);
    char* p = static_cast<char*>(dv_alloc("p", n, 1));
    std::string s, u, l;
    for (uint64_t i = 0; i < n; i++) {
        char c = static_cast<char>(p[i] & 0x7f);
        s += c;
        u += c >= 'a' && c <= 'z' ? static_cast<char>(c - 32) : c;
        l += c >= 'A' && c <= 'Z' ? static_cast<char>(c + 32) : c;
    }
    BinaryString b = BinaryString::FromString(s, &pool);
    dv_assert(b.ToUpperCase(&pool).ToString() == u, "letters in upper case, the rest as it was");
    dv_assert(b.ToLowerCase(&pool).ToString() == l, "letters in lower case, the rest as it was");
    dv_assert(static_cast<uint64_t>(b.NumChars()) == n, "number of characters");
    dv_cover("ascii");
}
DV_ENTRY(search_two) {
    uint64_t k1 = 1 + dv_len("k1", 4), k2 = 1 + dv_len("k2", 3), n1 = dv_len("n1", 20), n2 = dv_len("n2", 6);
    uint32_t what = dv_u8("what") % 3;
    if (what == 0) Find(k1, n1, k2, n2, 12);
    else Has(k1, n1, k2, n2, what - 1, 12);
}
