// Inline markup, entities and slugs against the reference.
#include "mc.hpp"
#include "markref.hpp"
extern "C" {
#include "common/utils.h"
#include "blogc/content-parser.h"
}
using mc::Ctx; using mc::Emit; using mc::Options;

// tags produced must nest; only judged for texts that cannot contain a link
static bool balanced(const std::string &h) {
    std::vector<std::string> st;
    for (size_t i = 0; i < h.size(); i++) if (h[i] == '<') {
        size_t e = h.find('>', i); if (e == std::string::npos) return false;
        std::string t = h.substr(i + 1, e - i - 1); i = e;
        if (t == "br /") continue;
        if (t[0] == '/') { if (st.empty() || st.back() != t.substr(1)) return false; st.pop_back(); }
        else if (t == "em" || t == "strong" || t == "code") st.push_back(t); else return false;
    }
    return st.empty();
}
static void run(const std::string &c, Ctx &x) {
    auto k = c.find('\x1f'); std::string kind = c.substr(0, k), s = c.substr(k + 1);
    mc::Buf b(s);       // exact allocation: reading past the end is noticed
    static std::string got; got.reserve(1 << 16);
    size_t before = __sanitizer_get_current_allocated_bytes();
    char *g = kind == "inline" ? blogc_content_parse_inline(b.p) : kind == "slug" ? blogc_slugify(b.p) : kind == "ent" ? blogc_htmlentities(b.p) : blogc_fix_description(b.p);
    if (!g) { x.fail("no result"); return; }
    got = g; free(g);
    if (__sanitizer_get_current_allocated_bytes() != before) x.fail("memory leaked for \"" + mc::show(s) + "\"");
    std::string want;
    if (kind == "inline") {
        want = mark::inl(s);
        if (s.find(']') == std::string::npos && !balanced(got)) x.fail("unbalanced or foreign tags in \"" + mc::show(got) + "\"");
    }
    else if (kind == "slug") want = mark::slug(s);
    else if (kind == "ent") want = mark::ents(s);
    else { std::string q; auto L = mark::lines(s); for (auto &l : L) if (l.t.empty()) return;   // paragraphs have no empty lines
         for (size_t i = 0; i < L.size(); i++) q += (i ? " " : "") + mark::strip(L[i].t); want = mark::ents(mark::strip(q)); }
    x.trans(s.size()); x.state(want); x.outcome(got);
    x.eq(kind + " of \"" + mc::show(s) + "\"", got, want);
}
static void words(Emit &e, const std::string &kind, const std::vector<std::string> &tok, size_t lo, size_t hi, const std::string &pre = "", const std::string &post = "") {
    mc::each_word(tok.size(), lo, hi, [&](const std::vector<size_t> &ix) {
        if (e.stop) return;
        e.lazy([&] { std::string t = kind + "\x1f" + pre; for (size_t i : ix) t += tok[i]; return t + post; });
    });
}
static std::vector<std::string> chars(const std::string &s) { std::vector<std::string> r; for (char c : s) r.push_back(std::string(1, c)); return r; }
static void enumerate(Emit &e, const Options &o) {
    bool th = o.tier == "thorough";
    e.mark("");
    for (int b = 1; b < 256; b++) for (const char *k : {"inline", "slug", "ent", "desc"}) for (const char *f : {"", "a", "ab"}) for (const char *g : {"", "z"})
        e.lazy([&] { return std::string(k) + "\x1f" + f + (char) b + g; });
    e.mark("bytes");
    words(e, "inline", chars("a*_`\\"), 0, th ? 10 : 8); e.mark("styles");
    words(e, "inline", chars("a[]()\\"), 0, th ? 9 : 7); e.mark("links");
    words(e, "inline", chars("a![]()\\ "), 0, th ? 8 : 6); e.mark("images");
    words(e, "inline", chars("a- \n\r\\"), 0, th ? 8 : 6); e.mark("dashes and breaks");
    words(e, "inline", chars("a*_`[]()!- \\\n<"), 0, th ? 6 : 5); e.mark("all bytes");
    words(e, "inline", {"**", "*", "__", "_", "``", "`", "a", "[", "](u)", "[[", "]]", "![", "<"}, 0, th ? 6 : 5); e.mark("tokens");
    words(e, "inline", {"[a](", "[a]\n (", ")", "![b](", "[![c](d)](", "[[", "]]", "\\)", "\\]", "\"", "x&y", "*", "["}, 0, th ? 6 : 5); e.mark("link tokens");
    words(e, "inline", {"--", "-", "  ", " ", "\n", "\r\n", "a", "*", "**", "\\", "`"}, 0, th ? 6 : 5, "x", ""); e.mark("break tokens");
    words(e, "inline", {"**", "*", "__", "_", "``", "a"}, 0, th ? 8 : 6, "[", "](u)"); e.mark("inside link");
    words(e, "inline", {"*", "_", "`", "[", "]", "\\", "a"}, 0, th ? 7 : 5, "**", "**"); e.mark("inside strong");
    words(e, "desc", {"a", " ", "\n", "\r\n", "\t", "<", "b c", "\r"}, 0, th ? 7 : 5); e.mark("descriptions");
    words(e, "slug", chars("aZ09-_ \xc3\xa9.@[`{/:"), 0, th ? 5 : 4); words(e, "ent", chars("&<>\"'/a#;"), 0, th ? 7 : 5); e.mark("slugs, entities");
}
int main(int argc, char **argv) { return mc::main_(argc, argv, {enumerate, run}); }
