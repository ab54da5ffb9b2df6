// Dates: every field value, every prefix, every single-character edit and suffix, under several time zones.
#include "mc.hpp"
#include "dateref.hpp"
extern "C" {
#include "common/utils.h"
#include "common/error.h"
#include "blogc/datetime-parser.h"
}
using mc::Ctx; using mc::Emit; using mc::Options;
static const char *zones[] = {"UTC", "EST5EDT,M3.2.0,M11.1.0", "LHST-10:30LHDT-11,M10.1.0,M4.1.0", "X12:34", "BRT3BRST,M10.3.0/0,M2.3.0/0"};
static const std::string FMT = "%Y-%m-%d %H:%M:%S %j %w %a %A %b %B %y %I %p %%";

static void run(const std::string &c, Ctx &x) {
    auto f = mc::fields(c);
    const std::string &s = f[0]; const char *tz = zones[atoi(f[1].c_str())];
    static const char *cur = nullptr;
    if (cur != tz) { setenv("TZ", tz, 1); tzset(); cur = tz; }
    dr::Date d; bool ok = dr::parse(s, d); std::string want = ok ? dr::format(d, FMT) : "";
    mc::Heap hp;
    bc_error_t *err = nullptr; mc::Buf b(s);
    char *r = blogc_convert_datetime(b.p, FMT.c_str(), &err);
    std::string got = r ? r : "", msg = err && err->msg ? err->msg : "";
    bool e = err != nullptr;
    free(r); bc_error_free(err);
    x.trans(s.size()); x.state(ok ? want : "bad" + msg); x.outcome(ok ? got : msg); x.count(ok ? "valid" : "invalid");
    if (ok && e) x.fail("valid date \"" + s + "\" rejected (TZ=" + tz + "): " + msg);
    else if (!ok && !e) x.fail("invalid date \"" + mc::show(s) + "\" accepted as " + got);
    else if (e && msg.empty()) x.fail("error without a message for \"" + mc::show(s) + "\"");
    else if (ok) x.eq("date \"" + s + "\" TZ=" + tz, got, want);
}

static void enumerate(Emit &e, const Options &o) {
    bool th = o.tier == "thorough";
    char b[64]; int nz = sizeof zones / sizeof *zones;
    auto emit = [&](const std::string &s, int z) { if (e.want()) e.exec(mc::join({s, std::to_string(z)})); };
    // every day of every year (hours omitted; noon is unaffected by zones, midnight is not)
    for (int z = 0; z < nz; z++) for (int y = 1900; y <= (th || z < 2 ? 2100 : 1902); y++) for (int m = 0; m <= 13; m++) for (int d = 0; d <= 32; d++) { if (e.stop) return; snprintf(b, sizeof b, "%04d-%02d-%02d", y, m, d); emit(b, z); }
    for (int y = 0; y <= 9999; y++) for (const char *md : {"-01-01", "-02-28", "-02-29", "-03-01", "-12-31"}) { snprintf(b, sizeof b, "%04d%s", y, md); emit(b, 0); }
    e.mark("days");
    // every hour/minute of every day of one year in every zone
    for (int z = 0; z < nz; z++) for (int m = 1; m <= 12; m++) for (int d = 1; d <= 31; d++) for (int h = 0; h <= 24; h++) for (int mi = -1; mi <= 60; mi += th ? 1 : mi < 0 ? 1 : 30) {
        if (e.stop) return;
        if (mi < 0) snprintf(b, sizeof b, "2021-%02d-%02d %02d", m, d, h); else snprintf(b, sizeof b, "2021-%02d-%02d %02d:%02d", m, d, h, mi);
        emit(b, z);
    }
    // every hh:mm:ss around interesting days
    for (int z = 0; z < nz; z++) for (const char *day : {"2020-02-29", "2021-12-31", "2021-03-14"}) for (int h = 0; h <= 99; h += (th || h < 24) ? 1 : 25) for (int m = 0; m <= 99; m += th || m < 2 || m >= 58 && m <= 60 ? 1 : 7) for (int s = 0; s <= 99; s += th || s < 1 || s >= 57 && s <= 62 ? 1 : 11) { if (e.stop) return; snprintf(b, sizeof b, "%s %02d:%02d:%02d", day, h, m, s); emit(b, z); }
    e.mark("times");
    // syntax: every prefix with every following byte, every substitution by every byte, every insertion and deletion
    for (const std::string &full : {"2010-11-30 12:13:14", "1999-01-01 00:00:00", "2000-12-31 23:59:60"}) {
        for (size_t n = 0; n <= full.size(); n++) {
            std::string p = full.substr(0, n); emit(p, 0);
            for (int c = 1; c < 256; c++) if (c != 0x1f) { std::string q = p + (char) c; emit(q, 0); emit(q + full.substr(n), 0); if (n < full.size()) emit(q + full.substr(n + 1), 0); }
            if (n < full.size()) emit(p + full.substr(n + 1), 0);
        }
        // two edits over the significant bytes
        std::string al = "0139-: ab";
        for (size_t i = 0; i < full.size(); i++) for (char c : al) for (size_t j = i; j <= full.size(); j++) for (char d : al) for (int k = 0; k < 4; k++) {
            if (e.stop) return;
            e.lazy([&] { std::string q = full; if (k & 1) q.insert(j, 1, d); else if (j < q.size()) q[j] = d; if (k & 2) q.insert(i, 1, c); else q[i] = c; return mc::join({q, "0"}); });
        }
    }
    e.mark("edits");
    mc::each_word(5, 0, th ? 8 : 6, [&](const std::vector<size_t> &ix) { if (e.stop) return; e.lazy([&] { std::string q; for (size_t k : ix) q += "01- :"[k]; return mc::join({q, "0"}); }); });
    for (const std::string &pre : {"2010-1", "2010-11-3", "2010-11-30 1", "2010-11-30 12:1", "2010-11-30 12:13:1"}) mc::each_word(5, 0, th ? 7 : 5, [&](const std::vector<size_t> &ix) { if (e.stop) return; e.lazy([&] { std::string q = pre; for (size_t k : ix) q += "02- :"[k]; return mc::join({q, "0"}); }); });
    e.mark("words");
}
int main(int argc, char **argv) { return mc::main_(argc, argv, {enumerate, run}); }
