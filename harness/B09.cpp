// Listings: sort, reverse, tag filter and pagination against a reference; the pages of a listing partition it.
#include "mc.hpp"
#include <dirent.h>
extern "C" {
#include "common/utils.h"
#include "common/error.h"
#include "blogc/loader.h"
}
using mc::Ctx; using mc::Emit; using mc::Options; typedef std::string S; typedef std::map<S, S> Map;
struct Kind { const char *date; int order; const char *tags; };   // order: rank of the date, -1 none, -2 not a date
static const Kind K[] = {
    {"2010-05-06", 40, 0}, {"2010-05-06 07:08:09", 41, "a"}, {"2010-05-06 00:00:00", 40, "b a"}, {"1969-12-31", 19, "ab"}, {"1970-01-01", 20, "a\ta"},
    {"2079-01-01", 60, " a  b "}, {"1901-12-14", 10, ""}, {"2100-01-01 23:59:59", 70, "b"}, {0, -1, 0}, {0, -1, "a"}, {"2010-02-30", -2, "a"}, {"2038-01-19 03:14:08", 50, "a b ab"},
};
static const int NK = sizeof K / sizeof *K;
static const int MAXPOS = 14;
static S dir;
static S base(int pos, int k) { return "p" + std::to_string(pos) + "-" + std::to_string(k); }
struct Case { std::vector<int> l; Map conf; };
static Case parse(const S &c) {   // kinds, one letter each, 0x1f, KEY=VALUE fields separated by 0x1f
    Case r; size_t i = 0; for (; i < c.size() && c[i] != '\x1f'; i++) r.l.push_back(c[i] - 'a');
    while (i < c.size()) { size_t j = c.find('\x1f', i + 1); if (j == S::npos) j = c.size(); S f = c.substr(i + 1, j - i - 1); size_t e = f.find('='); if (e != S::npos) r.conf[f.substr(0, e)] = f.substr(e + 1); i = j; }
    return r;
}
static bool truth(const Map &m, const char *k) { auto i = m.find(k); if (i == m.end()) return false; S v = i->second; for (auto &c : v) c = tolower(c); return v == "1" || v == "y" || v == "yes" || v == "true" || v == "on"; }
static bool tagged(const char *t, const S &w) { if (!t) return false; S s = t; size_t i = 0; while (i <= s.size()) { size_t j = s.find(' ', i); if (j == S::npos) j = s.size(); S p = s.substr(i, j - i); if (!p.empty() && p == w) return true; i = j + 1; } return false; }
static __int128 num(const S &s) {   // like strtol, without overflow: the documented type is "integer"
    size_t i = 0; while (i < s.size() && (s[i] == ' ' || s[i] == '\t')) i++;
    bool neg = false; if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
    __int128 v = 0; for (; i < s.size() && isdigit((unsigned char) s[i]); i++) { v = v * 10 + (s[i] - '0'); if (v > (__int128) 1 << 100) break; }
    __int128 mx = 0x7fffffffffffffffLL; if (v > mx) v = mx; return neg ? -v : v;
}
static S str(__int128 v) { return std::to_string((long long) v); }
struct Result { bool error = false; std::vector<S> files; Map vars; };
static S trim(S s) { while (!s.empty() && strchr(" \t", s[0])) s.erase(0, 1); while (!s.empty() && strchr(" \t", s.back())) s.pop_back(); return s; }
static Result reference(const Case &c) {
    Result r; bool sort = truth(c.conf, "FILTER_SORT"), rev = truth(c.conf, "FILTER_REVERSE"); size_t dated = 0;
    std::vector<std::pair<int, int>> v;   // (position, kind)
    for (size_t i = 0; i < c.l.size(); i++) { int k = c.l[i]; if (k < 0 || k >= NK) { r.error = true; return r; } if (K[k].order != -1) dated++; if (sort && K[k].order < 0) r.error = true; v.push_back({(int) i, k}); }
    if (dated && dated < c.l.size()) r.error = true;
    if (r.error) return r;
    if (sort) std::stable_sort(v.begin(), v.end(), [&](auto &a, auto &b) { return rev ? K[a.second].order < K[b.second].order : K[a.second].order > K[b.second].order; });
    else if (rev) std::reverse(v.begin(), v.end());
    if (c.conf.count("FILTER_TAG")) { auto t = c.conf.at("FILTER_TAG"); decltype(v) w; for (auto &p : v) if (tagged(K[p.second].tags, t)) w.push_back(p); v = w; }
    bool paged = c.conf.count("FILTER_PAGE"); __int128 page = 1, per = 10, total = v.size(), last = 0;
    if (paged) {
        page = num(c.conf.at("FILTER_PAGE")); if (page < 1) page = 1;
        if (c.conf.count("FILTER_PER_PAGE")) per = num(c.conf.at("FILTER_PER_PAGE")); if (per < 0) per = 0;
        decltype(v) w; for (__int128 i = 0; i < total; i++) if (i >= (page - 1) * per && i < page * per) w.push_back(v[(size_t) i]); v = w;
        last = per ? (total + per - 1) / per : 0;
        r.vars["CURRENT_PAGE"] = str(page); if (page > 1) r.vars["PREVIOUS_PAGE"] = str(page - 1); if (page < last) r.vars["NEXT_PAGE"] = str(page + 1);
        if (!v.empty()) r.vars["FIRST_PAGE"] = "1"; if (last > 0) r.vars["LAST_PAGE"] = str(last);
    }
    for (auto &p : v) r.files.push_back(base(p.first, p.second));
    if (!v.empty()) {
        r.vars["FILENAME_FIRST"] = r.files.front(); r.vars["FILENAME_LAST"] = r.files.back();
        if (K[v.front().second].date) { r.vars["DATE_FIRST"] = K[v.front().second].date; r.vars["DATE_LAST"] = K[v.back().second].date; }
    }
    return r;
}
static void get(const char *k, void *d, void *u) { (*(Map*) u)[k] = (const char*) d; }
static S show(const Map &m) { S r; for (auto &p : m) r += p.first + "=" + p.second + " "; return r; }
static S join(const std::vector<S> &v) { S r; for (auto &s : v) r += s + " "; return r; }
static S raw;   // what the program returned, in storage that exists before, so that the heap can be balanced
static void put(const char *k, void *d, void *) { raw += '\x1f'; raw += k; raw += '='; raw += (const char*) d; }
static Result real(const Case &c, Ctx &x) {
    Result r; raw.reserve(1 << 16); raw.clear(); mc::Heap heap; bc_trie_t *conf = bc_trie_new(free); bc_slist_t *l = nullptr; bc_error_t *err = nullptr;
    for (auto &p : c.conf) bc_trie_insert(conf, p.first.c_str(), strdup(p.second.c_str()));
    for (size_t i = 0; i < c.l.size(); i++) l = bc_slist_append(l, strdup((dir + "/" + base(i, c.l[i]) + ".txt").c_str()));
    bc_slist_t *s = blogc_source_parse_from_files(conf, l, &err);
    if (err) { r.error = true; if (!err->msg || !*err->msg) x.fail("error without message"); if (s) x.fail("result and error"); bc_error_free(err); }
    else {
        for (auto p = s; p; p = p->next) {
            auto t = (bc_trie_t*) p->data; const char *f = (const char*) bc_trie_lookup(t, "FILENAME"); raw += '\x1e'; raw += f ? f : "?";
            int pos, k; if (f && sscanf(f, "p%d-%d", &pos, &k) == 2 && k < NK) {   // the post is the one of that file, complete
                Map m; bc_trie_foreach(t, get, &m);
                if (m["TITLE"] != f) x.fail("the variables of " + S(f) + " are those of " + m["TITLE"]);
                if ((K[k].date ? m["DATE"] : "") != S(K[k].date ? K[k].date : "")) x.fail("wrong DATE of " + S(f));
                if (K[k].tags && m["TAGS"] != trim(K[k].tags)) x.fail("wrong TAGS of " + S(f));
                if (m["CONTENT"] != "<p>c" + std::to_string(pos) + "</p>\n") x.fail("wrong content of " + S(f) + ": " + m["CONTENT"]);
            }
        }
        bc_trie_foreach(conf, put, nullptr);
    }
    bc_slist_free_full(s, (bc_free_func_t) bc_trie_free); bc_slist_free_full(l, free); bc_trie_free(conf);
    long leak = heap.diff(); if (leak) x.fail(std::to_string(leak) + " bytes not released");
    for (size_t i = 0; i < raw.size();) { size_t j = raw.find_first_of("\x1e\x1f", i + 1); if (j == S::npos) j = raw.size(); S f = raw.substr(i + 1, j - i - 1); if (raw[i] == '\x1e') r.files.push_back(f); else { size_t q = f.find('='); r.vars[f.substr(0, q)] = f.substr(q + 1); } i = j; }
    if (!r.error) for (auto &p : c.conf) { auto i = r.vars.find(p.first); if (i == r.vars.end() || i->second != p.second) x.fail("setting " + p.first + " was changed"); else r.vars.erase(i); }
    return r;
}
static void run(const S &in, Ctx &x) {
    Case c = parse(in); Result want = reference(c), got = real(c, x);
    x.trans(c.l.size() + 1); x.state(want.error ? "E" : join(want.files) + show(want.vars)); x.outcome(got.error ? "E" : join(got.files) + show(got.vars)); x.count(want.error ? "rejected" : "listed");
    S d; for (int k : c.l) if (k < 0 || k >= NK) d += "missing, "; else d += S(K[k].date ? K[k].date : "-") + "/" + (K[k].tags ? K[k].tags : "-") + ", "; d += show(c.conf);
    if (want.error != got.error) return x.fail((want.error ? "accepted: " : "rejected: ") + d);
    if (want.error) return;
    if (want.files != got.files) x.fail("listed " + join(got.files) + "instead of " + join(want.files) + "for " + d);
    if (want.vars != got.vars) x.fail("variables " + show(got.vars) + "instead of " + show(want.vars) + "for " + d);
    // the pages up to LAST_PAGE are a partition of what is listed without pagination
    if (c.conf.count("FILTER_PAGE") && got.vars.count("LAST_PAGE") && c.conf["FILTER_PAGE"] == "1") {
        Case all = c; all.conf.erase("FILTER_PAGE"); auto whole = real(all, x).files; std::vector<S> parts; long last = atol(got.vars["LAST_PAGE"].c_str());
        for (long p = 1; p <= last && p < 100; p++) { Case q = c; q.conf["FILTER_PAGE"] = std::to_string(p); auto f = real(q, x); parts.insert(parts.end(), f.files.begin(), f.files.end()); if (f.files.empty()) x.fail("page " + std::to_string(p) + " is empty: " + d); if (f.vars.count("NEXT_PAGE") != (p < last)) x.fail("wrong next page: " + d); }
        if (parts != whole) x.fail("pages are not a partition: " + d); x.count("partitions");
    }
}
typedef std::vector<S> V;
static void enumerate(Emit &e, const Options &o) {
    bool th = o.tier == "thorough"; const char *U = "\x1f";
    auto opt = [&](const char *k, const S &v) { return v == "?" ? S() : S(U) + k + "=" + v; };
    // order: all lists over the dates
    const int D[] = {0, 1, 2, 3, 5, 6, 7};
    mc::each_word(7, 0, th ? 7 : 5, [&](const std::vector<size_t> &ix) { if (e.stop) return; for (const char *s : {"?", "1"}) for (const char *r : {"?", "1"}) e.lazy([&] { S c; for (size_t i : ix) c += 'a' + D[i]; return c + opt("FILTER_SORT", s) + opt("FILTER_REVERSE", r); }); });
    e.mark("orders");
    mc::each_word(NK, 0, th ? 5 : 3, [&](const std::vector<size_t> &ix) { if (e.stop) return; for (const char *s : {"?", "1"}) for (const char *r : {"?", "1"}) for (const char *t : {"?", "", "a", "ab", "b"}) for (const char *p : {"?", "1", "2"}) { if (*p == '2' && !(*t == 'a' || *t == '?')) continue; e.lazy([&] { S c; for (size_t i : ix) c += 'a' + i; return c + opt("FILTER_SORT", s) + opt("FILTER_REVERSE", r) + opt("FILTER_TAG", t) + opt("FILTER_PAGE", p) + (*p == '?' ? S() : opt("FILTER_PER_PAGE", "2")); }); } });
    e.mark("filters");
    // pagination: list length x page x page size
    V pages{"?", "", "0", "1", "2", "3", "4", "5", "7", "12", "13", "14", "-1", "x", "2x", " 2", "+2", "02", "99", "4611686018427387905", "9223372036854775807", "9223372036854775808", "18446744073709551617", "4294967297"};
    V per{"?", "", "0", "1", "2", "3", "4", "5", "6", "7", "10", "12", "13", "-1", "x", "3x", "2147483648", "4294967298", "4611686018427387904", "9223372036854775807", "99999999999999999999"};
    for (int n = 0; n <= (th ? MAXPOS : 13); n++) for (auto &p : pages) for (auto &q : per) for (const char *t : {"?", "a"}) for (const char *r : {"?", "1"}) for (const char *s : {"?", "1"}) { if (e.stop) return; e.lazy([&] { S c; for (int i = 0; i < n; i++) c += "abcabl"[i % 6]; return c + opt("FILTER_PAGE", p) + opt("FILTER_PER_PAGE", q) + opt("FILTER_TAG", t) + opt("FILTER_REVERSE", r) + opt("FILTER_SORT", s); }); }
    e.mark("pages");
    V bools{"?", "", "0", "1", "2", "y", "yes", "true", "on", "Y", "YES", "True", "oN", "n", "no", "false", "off", "t", "yess", " yes", "11", "tru"};
    for (auto &s : bools) for (auto &r : bools) for (const char *l : {"dab", "aaf", "ii", "hgd"}) { if (e.stop) return; e.lazy([&] { return l + opt("FILTER_SORT", s) + opt("FILTER_REVERSE", r); }); }
    for (const char *l : {"a", "ab", "ba", "az", "za", "aza"}) for (const char *s : {"?", "1"}) e(l + opt("FILTER_SORT", s));   // z: there is no such file
    e.mark("settings");
}
static void init() { stderr = fopen("/dev/null", "w"); setvbuf(stderr, nullptr, _IONBF, 0); }
int main(int argc, char **argv) {
    tzset(); char w[9]; time_t z = 0; strftime(w, 9, "%Y", gmtime(&z));
    dir = mc::scratch_dir();
    for (int p = 0; p < MAXPOS; p++) for (int k = 0; k < NK; k++) {
        FILE *f = fopen((dir + "/" + base(p, k) + ".txt").c_str(), "w"); if (!f) return 3;
        fprintf(f, "TITLE: %s\n", base(p, k).c_str()); if (K[k].date) fprintf(f, "DATE: %s\n", K[k].date); if (K[k].tags) fprintf(f, "TAGS: %s\n", K[k].tags); fprintf(f, "---\nc%d\n", p); fclose(f);
    }
    int rc = mc::main_(argc, argv, {enumerate, run, init});
    for (int p = 0; p < MAXPOS; p++) for (int k = 0; k < NK; k++) unlink((dir + "/" + base(p, k) + ".txt").c_str());
    rmdir(dir.c_str());
    return rc;
}
