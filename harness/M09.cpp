// The settings of a website: which blogcfile is accepted, and what blogc-make takes from it.
#include "mc.hpp"
extern "C" {
#include "common/utils.h"
#include "common/error.h"
#include "blogc-make/settings.h"
}
using mc::Ctx; using mc::Emit; using mc::Options; typedef std::string S; typedef std::vector<S> V;
// blogcfile(5)
static const std::vector<std::pair<S, const char*>> DEF = {{"atom_ext", ".xml"}, {"atom_order", "DESC"}, {"atom_posts_per_page", "10"}, {"atom_prefix", "atom"}, {"atom_template", nullptr}, {"blog_prefix", nullptr}, {"content_dir", "content"},
    {"date_format", "%b %d, %Y, %I:%M %p GMT"}, {"html_ext", "/index.html"}, {"html_order", "DESC"}, {"index_prefix", ""}, {"listing_entry", nullptr}, {"locale", nullptr}, {"main_template", "main.tmpl"}, {"pagination_prefix", "page"},
    {"post_prefix", "post"}, {"posts_per_page", "10"}, {"posts_sort", nullptr}, {"run_from_make", nullptr}, {"source_ext", ".txt"}, {"tag_prefix", "tag"}, {"template_dir", "templates"}};
static const V REQ = {"AUTHOR_NAME", "AUTHOR_EMAIL", "SITE_TITLE", "SITE_TAGLINE", "BASE_DOMAIN"};
static const V LISTS = {"posts", "pages", "tags", "copy"};
struct Sec { S name; V lines; };
static S text(const std::vector<Sec> &f) { S r; for (auto &s : f) { r += "[" + s.name + "]\n"; for (auto &l : s.lines) r += l + "\n"; } return r; }
static S trim(const S &s) { size_t a = s.find_first_not_of(" \t\f\v"), b = s.find_last_not_of(" \t\f\v"); return a == S::npos ? "" : s.substr(a, b - a + 1); }
struct Want { bool ok = true; S why; std::map<S, S> global, settings; std::map<S, V> lists; };
static Want ref(const S &t) {   // the cases hold no quotes, escapes or comments: those are B11's matter
    Want w; std::map<S, std::map<S, S>> m; std::map<S, V> l; S cur; size_t i = 0;
    while (i < t.size()) {
        size_t j = t.find('\n', i); S s = trim(t.substr(i, j - i)); i = j + 1;
        if (s.empty()) continue;
        if (s[0] == '[') { cur = s.substr(1, s.size() - 2); if (std::count(LISTS.begin(), LISTS.end(), cur) || cur == "copy_files") l[cur]; else m[cur]; continue; }
        if (l.count(cur)) { l[cur].push_back(s); continue; }
        size_t e = s.find('='); m[cur][trim(s.substr(0, e))] = trim(s.substr(e + 1));
    }
    w.global = m.count("global") ? m["global"] : m["environment"];
    for (auto &p : w.global) for (size_t k = 0; k < p.first.size(); k++) { char c = p.first[k]; if (!(c >= 'A' && c <= 'Z') && !(k && ((c >= '0' && c <= '9') || c == '_'))) { w.ok = false; w.why = "name"; } }
    for (auto &r : REQ) if (w.global[r].empty()) { w.ok = false; if (w.why.empty()) w.why = "required"; }
    for (auto &d : DEF) if (m["settings"].count(d.first)) w.settings[d.first] = m["settings"][d.first]; else if (d.second) w.settings[d.first] = d.second;
    for (auto &n : LISTS) if (l.count(n)) w.lists[n] = l[n];
    if (!l.count("copy") && l.count("copy_files")) w.lists["copy"] = l["copy_files"];
    return w;
}
struct Out { char *p, *end; };
static void put(const char *a, const char *b, Out &o) { if (o.p + strlen(a) + strlen(b) + 3 < o.end) o.p += sprintf(o.p, "%s=%s\n", a, b); }
static void cb(const char *k, void *v, void *o) { put(k, (const char*) v, *(Out*) o); }
static S sorted(const char *a, const char *b) { V v; S c; for (; a < b; a++) { c += *a; if (*a == '\n') { v.push_back(c); c.clear(); } } std::sort(v.begin(), v.end()); S r; for (auto &s : v) r += s; return r; }
static S join(const std::map<S, S> &m) { S r; V v; for (auto &p : m) v.push_back(p.first + "=" + p.second + "\n"); std::sort(v.begin(), v.end()); for (auto &s : v) r += s; return r; }
static void run(const S &s, Ctx &x) {
    static char g[1 << 17], t[1 << 17], l[1 << 17], msg[1 << 12];
    Out og{g, g + sizeof g}, ot{t, t + sizeof t}; char *ol = l; *l = *msg = 0;
    Want w = ref(s); mc::Buf b(s); bool got, err; long leak;
    {
        mc::Heap h; bc_error_t *e = nullptr;
        bm_settings_t *st = bm_settings_parse(b.p, b.n, &e);
        got = st; err = e; if (e && e->msg) snprintf(msg, sizeof msg, "%s", e->msg);
        if (st) {
            bc_trie_foreach(st->global, (bc_trie_foreach_func_t) cb, &og); bc_trie_foreach(st->settings, (bc_trie_foreach_func_t) cb, &ot);
            char **ls[] = {st->posts, st->pages, st->tags, st->copy};
            for (int k = 0; k < 4; k++) for (char **p = ls[k]; p && *p; p++) ol += snprintf(ol, l + sizeof l - ol, "%s:%s\n", LISTS[k].c_str(), *p);
        }
        bm_settings_free(st); bc_error_free(e); leak = h.diff();
    }
    S wl; for (auto &n : LISTS) for (auto &i : w.lists[n]) wl += n + ":" + i + "\n";
    x.trans(std::count(s.begin(), s.end(), '\n')); x.state((w.ok ? "+" : "-" + w.why) + join(w.global) + join(w.settings) + wl); x.outcome(got ? S(g, og.p) + S(t, ot.p) + l : S(msg)); x.count(w.ok ? "valid" : w.why);
    if (got == err) { x.fail("result and error do not exclude each other for " + mc::show(s)); return; }
    if (leak) x.fail("memory not released for " + mc::show(s));
    if (got != w.ok) { x.fail(S(got ? "accepted" : "rejected") + " settings that are " + (w.ok ? "valid" : "invalid (" + w.why + ")") + ": " + mc::show(s) + " " + mc::show(msg)); return; }
    if (!got) return;
    x.eq("[global] of " + mc::show(s), sorted(g, og.p), join(w.global));
    x.eq("[settings] of " + mc::show(s), sorted(t, ot.p), join(w.settings));
    x.eq("lists of " + mc::show(s), S(l), wl);
}
static V full() { return {"AUTHOR_NAME = Ann", "AUTHOR_EMAIL=a@x.org", "SITE_TITLE  =  T", "SITE_TAGLINE = G g", "BASE_DOMAIN=http://x.org"}; }
static void enumerate(Emit &e, const Options &o) {
    bool th = o.tier == "thorough";
    // required variables: each with a value, missing, empty, or blank, in either order, in both sections
    const V forms = {" = v w", "", "=", "=  \t"};
    for (const char *sec : {"global", "environment", "settings", "globals", ""}) for (int rev = 0; rev < 2; rev++) for (int m = 0; m < 1024; m++) e.lazy([&] {
        Sec s{sec, {}}; for (int k = 0, q = m; k < 5; k++, q /= 4) if (q % 4 != 1) s.lines.push_back(REQ[k] + forms[q % 4]);
        if (rev) std::reverse(s.lines.begin(), s.lines.end());
        if (!*sec) return S("\n") ; return text({s}); });
    e.mark("required");
    // names of variables: every word, every byte in every position
    auto named = [&](const S &n) { for (const char *sec : {"global", "environment"}) for (int pos : {0, 5}) e.lazy([&] { Sec s{sec, full()}; s.lines.insert(s.lines.begin() + pos, n + " = x"); return text({s}); }); };
    mc::each_word(12, 1, th ? 5 : 4, [&](const std::vector<size_t> &ix) { if (e.stop) return; S n; for (size_t i : ix) n += "AZaz09_-. M:"[i]; if (trim(n) == n) named(n); });
    for (int c = 1; c < 256; c++) { if (strchr("\n\r=\"\\#;[] \t\f\v", c)) continue; for (const char *p : {"", "A", "A_", "VAR", "SITE_TITL"}) for (const char *q : {"", "A", "_9", "B C"}) named(S(p) + (char) c + q); }
    for (const char *c : {"#", ";", "[", "]", "\"", "\\", " ", "\t"}) for (const char *p : {"A", "A_", "VAR"}) for (const char *q : {"A", "_9"}) named(S(p) + c + q);
    for (size_t n = 1; n < (th ? 3000 : 700); n++) { named(S(n, 'K')); named(S(n, 'K') + "-"); named("-" + S(n, 'K')); }
    for (auto &d : DEF) named(d.first);
    e.mark("names");
    // values reach the variable unchanged
    for (int c = 1; c < 256; c++) { if (strchr("\n\r\"\\", c)) continue; for (const char *p : {"", "a", "=", "a b"}) for (const char *q : {"", "b", " c", "="}) e.lazy([&] { Sec s{"global", full()}; s.lines.push_back("V=" + (S(p) + (char) c + q)); s.lines[2] = "SITE_TITLE=" + (S(p) + (char) c + q); return text({s, {"settings", {"locale = " + (S(p) + (char) c + q)}}}); }); }
    e.mark("values");
    // settings: each one, every pair, every triple (thorough), and names near them
    V names; for (auto &d : DEF) names.push_back(d.first);
    for (const char *n : {"ATOM_EXT", "atom", "atom_ex", "atom_extt", "html", "unknown", "content-dir", "AUTHOR_NAME", "posts"}) names.push_back(n);
    const V vals = {"", "=v", " = ", "= /x y", "=0", "= -1", " =DESC", "= true"};
    auto cfg = [&](const std::vector<std::pair<size_t, size_t>> &k, int order) { e.lazy([&] { Sec s{"settings", {}}; for (auto &p : k) if (p.second) s.lines.push_back(names[p.first] + vals[p.second]); Sec g{"global", full()}; return order ? text({s, g}) : text({g, s}); }); };
    for (size_t i = 0; i < names.size(); i++) for (size_t a = 0; a < vals.size(); a++) for (int ord = 0; ord < 2; ord++) { cfg({{i, a}}, ord); for (size_t j = 0; j < names.size(); j++) for (size_t b = 1; b < vals.size(); b++) cfg({{i, a}, {j, b}}, ord); }
    if (th) for (size_t i = 0; i < names.size(); i++) for (size_t j = 0; j < names.size(); j++) for (size_t k = 0; k < names.size(); k++) for (size_t a = 1; a < 4; a++) for (size_t b = 1; b < 4; b++) cfg({{i, a}, {j, b}, {k, 1}}, 0);
    e.mark("settings");
    // lists
    const V items = {"a", "b/c", "d e", "a = b", "-", "x.txt"};
    std::vector<V> ls; mc::each_word(items.size(), 0, 2, [&](const std::vector<size_t> &ix) { V v; for (size_t i : ix) v.push_back(items[i]); ls.push_back(v); });
    const V secs = {"posts", "pages", "tags", "copy", "copy_files"};
    for (size_t i = 0; i < 5; i++) for (size_t j = 0; j < 5; j++) for (auto &a : ls) for (auto &b : ls) { if (e.stop) return; for (int ord = 0; ord < 2; ord++) e.lazy([&] { std::vector<Sec> f; if (!ord) f.push_back({"global", full()}); f.push_back({secs[i], a}); if (i != j) f.push_back({secs[j], b}); if (ord) f.push_back({"global", full()}); return text(f); }); }
    for (int m = 0; m < 243; m++) for (int shift = 0; shift < 5; shift++) for (int both = 0; both < 2; both++) e.lazy([&] { std::vector<Sec> f; int q = m; if (both) f.push_back({"environment", full()}); for (int k = 0; k < 5; k++, q /= 3) if (q % 3) f.push_back({secs[(k + shift) % 5], q % 3 == 1 ? V{"one" + secs[(k + shift) % 5]} : V{}}); if (!both) f.push_back({"global", full()}); return text(f); });
    for (size_t n = 1; n < (th ? 3000 : 700); n++) e.lazy([&] { Sec s{secs[n % 5], {}}; for (size_t k = 0; k < n; k++) s.lines.push_back("item" + std::to_string(k * 7 % 10)); return text({s, {"global", full()}}); });
    e.mark("lists");
    // variables beside each other in both sections: [environment] stands in only where there is no [global]
    for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) for (int ord = 0; ord < 2; ord++) e.lazy([&] {
        auto mk = [&](const S &n, int k) { Sec s{n, {}}; if (k != 0) s.lines = full(); if (k == 2) s.lines.push_back("EXTRA=" + n); if (k == 3) s.lines.push_back("bad=" + n); return s; };
        Sec g = mk("global", a), v = mk("environment", b); return ord ? text({v, g}) : text({g, v}); });
    e.mark("sections");
}
int main(int argc, char **argv) { return mc::main_(argc, argv, {enumerate, run}); }
