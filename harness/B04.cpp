// Source files: variables and content, against a reference reader.
#include "mc.hpp"
extern "C" {
#include "common/utils.h"
#include "common/error.h"
#include "blogc/content-parser.h"
#include "blogc/source-parser.h"
#include "blogc/loader.h"
}
using mc::Ctx; using mc::Emit; using mc::Options;
typedef std::map<std::string, std::string> Map;
static bool nl(char c) { return c == '\n' || c == '\r'; }
static std::string trim(std::string s) { auto sp = [](char c) { return c && strchr(" \t\f\v\r\n", c); }; while (!s.empty() && sp(s[0])) s.erase(0, 1); while (!s.empty() && sp(s.back())) s.pop_back(); return s; }
static const std::set<std::string> RESERVED{"FILENAME", "CONTENT", "DATE_FORMATTED", "DATE_FIRST_FORMATTED", "DATE_LAST_FORMATTED", "PAGE_FIRST", "PAGE_PREVIOUS", "PAGE_CURRENT", "PAGE_NEXT", "PAGE_LAST", "BLOGC_VERSION"};
static const std::set<std::string> DERIVED{"CONTENT", "EXCERPT", "FIRST_HEADER", "DESCRIPTION", "TOCTREE", "RAW_CONTENT"};

struct Ref {
    Map m; std::string content; bool error = false, open = false, has_content = false;
    explicit Ref(const std::string &s) {
        size_t i = 0, n = s.size();
        while (true) {
            while (i < n && (s[i] == ' ' || s[i] == '\t' || nl(s[i]))) i++;
            if (i == n) { if (m.empty()) error = true; return; }
            if (s[i] == '-') {
                size_t k = i; while (i < n && s[i] == '-') i++;
                if (i == n) { open = i - k < 2; return; }
                if (!nl(s[i]) || i - k < 2) { error = true; return; }
                while (i < n && nl(s[i])) i++;
                content = s.substr(i); has_content = i < n; return;
            }
            if (!(s[i] >= 'A' && s[i] <= 'Z')) { error = true; return; }
            size_t k = i; while (i < n && ((s[i] >= 'A' && s[i] <= 'Z') || (s[i] >= '0' && s[i] <= '9') || s[i] == '_')) i++;
            if (i == n || s[i] != ':') { error = true; return; }
            std::string key = s.substr(k, i - k); if (RESERVED.count(key)) { error = true; return; }
            k = ++i; while (i < n && !nl(s[i])) i++;
            if (i == n) { error = true; return; }     // a value that is not terminated is reported, never dropped
            m[key] = trim(s.substr(k, i - k));
        }
    }
};
static void get(const char *k, void *d, void *u) { (*(Map*) u)[k] = (const char*) d; }
static std::string show(const Map &m) { std::string r; for (auto &p : m) r += p.first + "=<" + p.second + "> "; return mc::show(r); }
static void filename(const std::string &f, Ctx &x) {
    size_t k = f.find_last_of("/\\"); std::string w = k == std::string::npos ? f : f.substr(k + 1);
    size_t d = w.rfind('.'); if (d != std::string::npos) w = w.substr(0, d);
    char *g = blogc_get_filename(f.c_str());
    x.trans(); x.state("f" + w); x.outcome(w);
    if (f.empty()) { if (g) x.fail("file name of nothing"); } else if (!g) x.fail("no file name"); else x.eq("file name of " + f, g, w);
    free(g);
}
static void run(const std::string &c, Ctx &x) {
    std::string s = c.substr(1);
    if (c[0] == 'f') return filename(s, x);
    mc::Buf b(s); bc_error_t *err = nullptr;
    bc_trie_t *t = blogc_source_parse(b.p, b.n, -1, &err);
    std::string msg = err && err->msg ? err->msg : ""; bool e = err; bc_error_free(err);
    Map got; if (t) bc_trie_foreach(t, get, &got);
    size_t listed = t ? bc_trie_size(t) : 0; bool sized = listed == got.size();
    bc_trie_free(t);
    Ref r(s); x.trans(s.size()); x.state(r.error ? "error" : show(r.m) + r.content); x.outcome(e ? msg.substr(0, msg.find('\n')) : show(got)); x.count(r.open ? "unspecified" : r.error ? "malformed" : "wellformed");
    if (e != (t == nullptr)) { x.fail("result and error do not exclude each other"); return; }
    if (r.open) return;
    if (r.error) { if (!e) x.fail("malformed source accepted as " + show(got)); else if (msg.empty()) x.fail("error without message"); return; }
    if (e) { x.fail("source rejected: " + msg); return; }
    if (!sized) x.fail("size of the result disagrees with its contents");
    if (r.has_content) {
        r.m["RAW_CONTENT"] = r.content;
        mc::Buf cb(r.content); size_t ee = 0; char *fh = nullptr, *de = nullptr, *el = nullptr; bc_slist_t *h = nullptr;
        char *html = blogc_content_parse(cb.p, &ee, &fh, &de, &el, nullptr);
        r.m["CONTENT"] = html ? html : ""; if (fh && !r.m.count("FIRST_HEADER")) r.m["FIRST_HEADER"] = fh; if (de && !r.m.count("DESCRIPTION")) r.m["DESCRIPTION"] = de;
        r.m["EXCERPT"] = ee ? r.m["CONTENT"].substr(0, ee) : r.m["CONTENT"];
        free(html); free(fh); free(de); free(el);
    }
    if (!r.m.count("TOCTREE")) got.erase("TOCTREE");      // generated tree: see B07
    if (got != r.m) x.fail("got " + show(got) + " want " + show(r.m));
}
static void enumerate(Emit &e, const Options &o) {
    bool th = o.tier == "thorough";
    std::vector<std::string> lines{"A: 1", "B_2:x y", "A:  two\t ", "A:", "C: :--: -", "TITLE: # \xc3\xa9", "", "  ", " D: indented", "----", "--", "-", "---x", "text", "*", "DESCRIPTION: d", "FIRST_HEADER:h", "TOCTREE: t", "CONTENT: x", "# head", "bad: 1", "E", "9A: 1", "A-B: 1", "RAW_CONTENT: q", "EXCERPT: e"};
    for (const char *eol : {"\n", "\r", "\r\n"}) for (int term = 0; term < 2; term++)
        mc::each_word(lines.size(), 0, th ? 4 : 3, [&](const std::vector<size_t> &ix) { if (e.stop) return; e.lazy([&] { std::string s = "s"; for (size_t i = 0; i < ix.size(); i++) { s += lines[ix[i]]; if (i + 1 < ix.size() || term) s += eol; } return s; }); });
    e.mark("lines");
    std::vector<std::string> by{"A", "a", ":", "-", " ", "\n", "\r", "\t", "1", "_"};
    mc::words(e, by, 0, th ? 7 : 5, "s"); mc::words(e, by, 0, th ? 6 : 5, "sK: v\n"); mc::words(e, by, 0, th ? 6 : 5, "sK:"); e.mark("bytes");
    mc::words(e, {"-", "\n", "\r", "a", "#", " ", "*"}, 0, th ? 8 : 6, "sK: v\n--"); mc::words(e, {"\n", "\r", "a", ".", "-"}, 0, th ? 8 : 6, "sK: v\n--\n"); e.mark("separator and content");
    for (const std::string &t : std::vector<std::string>{"sTITLE: a b\nZ_9:c\n\nK:\n---\n\n# h\n\np q\n", "sA: 1\r\n--\r\n\r\nx"})
        for (size_t p = 1; p <= t.size(); p++) for (int b = 1; b < 256; b++) {
            if (e.stop) break;
            if (p < t.size()) e.lazy([&] { std::string w = t; w[p] = b; return w; });
            e.lazy([&] { std::string w = t; w.insert(p, 1, (char) b); return w; });
        }
    e.mark("every byte everywhere");
    for (auto &r : RESERVED) for (const std::string &k : {r, r + "_", r.substr(0, r.size() - 1), "A" + r, r + "S"}) for (const char *tail : {": 1\n", ": 1", ":\n", ":"}) { e("s" + k + tail + "--\nx"); e("sOK: 1\n" + k + tail); }
    e.mark("reserved names");
    // sizes: every length of value and content
    for (int n = 0; n <= (th ? 1200 : 300); n++) for (int k = 0; k < 3; k++) e.lazy([&] { std::string v(n, 'q'); return k == 0 ? "sA: " + v + "\n--\nx\n" : k == 1 ? "sA: 1\n--\n" + v : "sA" + std::string(n, 'B') + ": 1\nZ: 2\n--\n\n\ny"; });
    e.mark("sizes");
    mc::words(e, {"a", ".", "/", "\\", "b"}, 0, th ? 8 : 6, "f"); e.mark("file names");
}
int main(int argc, char **argv) { return mc::main_(argc, argv, {enumerate, run}); }
