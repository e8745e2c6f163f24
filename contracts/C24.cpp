// Stored codes of row kind, file kind, file source and start-up mode.
#include "dv.h"
#include "paimon/common/types/row_kind.h"
#include "paimon/core/manifest/file_kind.h"
#include "paimon/core/manifest/file_source.h"
#include "paimon/table/source/startup_mode.h"
using namespace paimon;
static bool Is(const std::string& s, const char* t, uint64_t n) {
    if (s.size() != n) return false;
    for (uint64_t i = 0; i < n; i++)
        if (s[i] != t[i]) return false;
    return true;
}
#define IS(s, t) Is(s, t, sizeof(t) - 1)
DV_ENTRY(row_kind_byte) {
    int8_t v = dv_i8("v");
    Result<const RowKind*> r = RowKind::FromByteValue(v);
    dv_assert(r.ok() == (v >= 0 && v <= 3), "exactly the codes 0..3 are known");
    if (r.ok()) {
        const RowKind* k = r.value();
        dv_assert(k->ToByteValue() == v, "code kept");
        const RowKind* want = v == 0 ? RowKind::Insert() : v == 1 ? RowKind::UpdateBefore() : v == 2 ? RowKind::UpdateAfter() : RowKind::Delete();
        dv_assert(k == want, "the kind of that code");
        dv_assert(*k == *want, "equal to the kind of that code");
        dv_assert(k->IsRetract() == (v == 1 || v == 3) && k->IsAdd() == (v == 0 || v == 2), "adding or retracting");
        dv_cover("known");
    } else {
        dv_cover("refused");
    }
}
DV_ENTRY(row_kind_codes) {
    dv_assert(RowKind::Insert()->ToByteValue() == 0 && RowKind::UpdateBefore()->ToByteValue() == 1 &&
                  RowKind::UpdateAfter()->ToByteValue() == 2 && RowKind::Delete()->ToByteValue() == 3,
              "codes");
    const RowKind* k[4] = {RowKind::Insert(), RowKind::UpdateBefore(), RowKind::UpdateAfter(), RowKind::Delete()};
    for (int i = 0; i < 4; i++) {
        for (int j = 0; j < 4; j++) {
            dv_assert((*k[i] == *k[j]) == (i == j), "kinds differ");
        }
    }
    dv_assert(IS(k[0]->ShortString(), "+I") && IS(k[1]->ShortString(), "-U") && IS(k[2]->ShortString(), "+U") && IS(k[3]->ShortString(), "-D"),
              "short names");
    dv_assert(IS(k[0]->Name(), "INSERT") && IS(k[1]->Name(), "UPDATE_BEFORE") && IS(k[2]->Name(), "UPDATE_AFTER") && IS(k[3]->Name(), "DELETE"),
              "names");
    dv_cover("codes");
}
DV_ENTRY(row_kind_text) {
    uint64_t n = dv_len("n", 0x7fffffff);
    std::string s;
    dv_string(&s, "s", n);
    Result<const RowKind*> r = RowKind::FromShortString(s);
    const RowKind* want = IS(s, "+I")   ? RowKind::Insert()
                          : IS(s, "-U") ? RowKind::UpdateBefore()
                          : IS(s, "+U") ? RowKind::UpdateAfter()
                          : IS(s, "-D") ? RowKind::Delete()
                                        : nullptr;
    dv_assert(r.ok() == (want != nullptr), "exactly the short names are known");
    if (r.ok()) {
        dv_assert(r.value() == want, "the kind of that name");
        dv_cover("known");
    } else {
        dv_cover("refused");
    }
}
DV_ENTRY(file_kind) {
    int8_t v = dv_i8("v");
    Result<FileKind> r = FileKind::FromByteValue(v);
    dv_assert(r.ok() == (v == 0 || v == 1), "exactly the codes 0 and 1 are known");
    if (r.ok()) {
        dv_assert(r.value().ToByteValue() == v, "code kept");
        dv_assert((r.value() == FileKind::Add()) == (v == 0) && (r.value() == FileKind::Delete()) == (v == 1), "the kind of that code");
        dv_cover("known");
    } else {
        dv_cover("refused");
    }
    dv_assert(FileKind::Add().ToByteValue() == 0 && FileKind::Delete().ToByteValue() == 1, "codes");
}
DV_ENTRY(file_source) {
    int8_t v = dv_i8("v");
    Result<FileSource> r = FileSource::FromByteValue(v);
    dv_assert(r.ok() == (v == 0 || v == 1), "exactly the codes 0 and 1 are known");
    if (r.ok()) {
        dv_assert(r.value().ToByteValue() == v, "code kept");
        dv_assert((r.value() == FileSource::Append()) == (v == 0) && (r.value() == FileSource::Compact()) == (v == 1), "the source of that code");
        dv_assert((r.value() != FileSource::Append()) == (v == 1), "different from the other source");
        dv_assert(v == 0 ? IS(r.value().ToString(), "APPEND") : IS(r.value().ToString(), "COMPACT"), "name of the source");
        dv_cover("known");
    } else {
        dv_cover("refused");
    }
    dv_assert(FileSource::Append().ToByteValue() == 0 && FileSource::Compact().ToByteValue() == 1, "codes");
}
DV_ENTRY(startup_mode) {
    uint64_t n = dv_len("n", 0x7fffffff);
    std::string s;
    dv_string(&s, "s", n);
    Result<StartupMode> r = StartupMode::FromString(s);
    int which = IS(s, "default")         ? 0
                : IS(s, "latest-full")   ? 1
                : IS(s, "latest")        ? 2
                : IS(s, "from-snapshot") ? 3
                : IS(s, "from-snapshot-full") ? 4
                                              : -1;
    dv_assert(r.ok() == (which >= 0), "exactly the mode names are known");
    if (r.ok()) {
        const StartupMode m = r.value();
        dv_assert((m == StartupMode::Default()) == (which == 0), "default");
        dv_assert((m == StartupMode::LatestFull()) == (which == 1), "latest-full");
        dv_assert((m == StartupMode::Latest()) == (which == 2), "latest");
        dv_assert((m == StartupMode::FromSnapshot()) == (which == 3), "from-snapshot");
        dv_assert((m == StartupMode::FromSnapshotFull()) == (which == 4), "from-snapshot-full");
        dv_cover("known");
    } else {
        dv_cover("refused");
    }
}
DV_ENTRY(startup_names) {
    const StartupMode m[5] = {StartupMode::Default(), StartupMode::LatestFull(), StartupMode::Latest(), StartupMode::FromSnapshot(), StartupMode::FromSnapshotFull()};
    dv_assert(IS(m[0].ToString(), "default") && IS(m[1].ToString(), "latest-full") && IS(m[2].ToString(), "latest") &&
                  IS(m[3].ToString(), "from-snapshot") && IS(m[4].ToString(), "from-snapshot-full"),
              "names");
    for (int i = 0; i < 5; i++) {
        for (int j = 0; j < 5; j++) {
            dv_assert((m[i] == m[j]) == (i == j), "modes differ");
        }
        Result<StartupMode> r = StartupMode::FromString(m[i].ToString());
        dv_assert(r.ok() && r.value() == m[i], "name gives the mode back");
    }
    dv_cover("names");
}
