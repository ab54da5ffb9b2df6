// Block markup of whole documents against the reference, and independence of documents separated by an empty line.
#include "mc.hpp"
#include "markref.hpp"
extern "C" {
#include "common/utils.h"
#include "blogc/content-parser.h"
#include "blogc/toctree.h"
}
using mc::Ctx; using mc::Emit; using mc::Options; typedef std::string S;

struct Got { std::string html, endl, fh, desc; bool has_fh, has_desc; size_t exc; std::vector<mark::Head> heads; };
static Got parse(const std::string &s, const char *eol) {
    mc::Buf b(s); Got g; g.exc = 0;
    char *fh = nullptr, *d = nullptr, *endl = eol ? strdup(eol) : nullptr; bc_slist_t *h = nullptr;
    char *r = blogc_content_parse(b.p, &g.exc, &fh, &d, &endl, &h);
    g.html = r; g.endl = endl; g.has_fh = fh; g.has_desc = d; if (fh) g.fh = fh; if (d) g.desc = d;
    for (bc_slist_t *l = h; l; l = l->next) { auto t = (blogc_toctree_header_t*) l->data; g.heads.push_back({t->level, t->slug ? t->slug : "", t->text ? t->text : ""}); }
    free(r); free(fh); free(d); free(endl); blogc_toctree_free(h);
    return g;
}
static void run(const std::string &c, Ctx &x) {
    mark::Doc w = mark::blocks(c, "", true);
    Got g = parse(c, nullptr);
    std::string kinds; for (auto &k : w.kinds) kinds += k + " ";
    x.trans(w.kinds.size()); x.state(kinds + (w.unspecified ? "?" : "")); x.outcome(g.html);
    std::string what = " of \"" + mc::show(c) + "\"";
    if (!w.unspecified) {
        if (!x.eq("html" + what, g.html, w.html)) return;
        std::string e; for (auto &l : mark::lines(c)) if (!l.eol.empty()) { e = l.eol; break; }
        if (!e.empty()) x.eq("line ending" + what, g.endl, e);
    }
    else x.count("meaning left open by the manual");
    if (w.joins) return;
    // an empty line always separates: the rest is parsed as if it was alone
    std::string eol = g.endl;
    size_t n = g.html.size();
    for (const char *rest : {"zz", "* y"}) {
        Got h = parse(c + eol + eol + rest, eol.c_str()), r = parse(rest, eol.c_str());
        if (!x.eq(std::string("\"") + rest + "\" after an empty line, html" + what, h.html, parse(c, eol.c_str()).html + r.html)) return;
    }
    // terminating the last line changes nothing
    if (!c.empty() && c.back() != '\n' && c.back() != '\r') x.eq("terminated html" + what, parse(c + eol, eol.c_str()).html, g.html);
}
static const std::vector<std::string> VOC = {"", "a", "b *c*", "# h", "## i", "#", "#h", "> q", "> # h", ">", ">  s", ">q", "* u", "*  u", "  u", "*\tw", "+ v", "-w", "- w", "1. o", "1.\to", "10. p", "   o", "1", "1.",
    "    code", "\tc", " d", "***", "----", "--", "**b**", "***b", "<p>", "..", "...", ".", "..x", "- ", "  "};
static const std::vector<std::string> SMALL = {"", "a", "# h", "> q", "> * u", "* u", "  u", "1. o", "   o", "    c", "---", "<p>", ".."};
static void docs(Emit &e, const std::vector<std::string> &voc, int lo, int hi, const std::vector<std::string> &eols, int term) {
    for (auto &eol : eols) mc::each_word(voc.size(), lo, hi, [&](const std::vector<size_t> &ix) {
        if (e.stop) return;
        for (int t = 0; t < 2; t++) if (term & (1 << t)) e.lazy([&] {
            std::string s; for (size_t i = 0; i < ix.size(); i++) { s += voc[ix[i]]; if (t || i + 1 < ix.size()) s += eol; } return s; });
    });
}
static void enumerate(Emit &e, const Options &o) {
    bool th = o.tier == "thorough";
    e.mark("");
    docs(e, VOC, 0, 2, {"\n", "\r", "\r\n"}, 3); e.mark("2 lines");
    std::vector<std::string> mk; for (const char *m : {"*", "-", "+", "#", "##", ">", "1.", "12.", "1", "**", "--", "***", "..", "    c", "\tc", "<"}) for (const char *b : {"", " ", "\t", "  ", " \t", "\t "}) for (const char *r : {"", "x", "x y", "*", "-", "#"}) mk.push_back(S(m) + b + r);
    std::sort(mk.begin(), mk.end()); mk.erase(std::unique(mk.begin(), mk.end()), mk.end());
    docs(e, mk, 1, 1, {"\n", "\r", "\r\n"}, 3); docs(e, mk, 2, 2, {"\n"}, 1); if (th) docs(e, mk, 2, 2, {"\r\n", "\r"}, 1); e.mark("markers and what follows them");
    docs(e, VOC, 3, 3, {"\n", "\r\n"}, 3); e.mark("3 lines");
    if (th) docs(e, VOC, 4, 4, {"\n", "\r\n"}, 3);
    docs(e, SMALL, th ? 5 : 4, th ? 6 : 5, {"\n"}, 1); docs(e, SMALL, 4, th ? 5 : 4, {"\r\n"}, 3); e.mark("small vocabulary");
    // line endings mixed within a document
    for (const char *a : {"\n", "\r\n", "\r"}) for (const char *b : {"\n", "\r\n", "\r"}) for (const char *d : {"\n", "\r\n"}) {
        mc::each_word(SMALL.size(), 3, th ? 4 : 3, [&](const std::vector<size_t> &ix) {
            if (e.stop) return;
            e.lazy([&] { std::string s; const char *E[] = {a, b, d, a}; for (size_t i = 0; i < ix.size(); i++) s += SMALL[ix[i]] + E[i]; return s; });
            e.lazy([&] { std::string s; const char *E[] = {a, b, d, a}; for (size_t i = 0; i < ix.size(); i++) s += SMALL[ix[i]] + E[i] + (i + 1 < ix.size() ? E[(i + 1) % 4] : ""); return s; });
        });
    }
    e.mark("mixed endings");
    // all byte words
    const std::string al = "a#*-.1> <\n";
    mc::each_word(al.size(), 0, th ? 7 : 6, [&](const std::vector<size_t> &ix) { if (!e.stop) e.lazy([&] { std::string s; for (size_t i : ix) s += al[i]; return s; }); });
    e.mark("byte words");
    const std::string al2 = "a> *\r\n";
    mc::each_word(al2.size(), 0, th ? 8 : 7, [&](const std::vector<size_t> &ix) { if (!e.stop) e.lazy([&] { std::string s; for (size_t i : ix) s += al2[i]; return s; }); });
    e.mark("byte words with CR");
    // every kind of block, every position of the end
    const std::string full = "# T\n\np *e*\nq\n\n> a\n> * b\n>   c\n\n* u\n  v\n* w\n\n1.  o\n    p\n10. q\n\n    code <\n    more\n\n***\n\n<div>\nx & y\n\n..\n\nend";
    for (size_t n = 0; n <= full.size(); n++) for (const char *eol : {"\n", "\r", "\r\n"}) for (int skip = 0; skip < 40; skip += 3) if ((size_t) skip <= n)
        e.lazy([&] { std::string s; for (size_t i = skip; i < n; i++) if (full[i] == '\n') s += eol; else s += full[i]; return s; });
    e.mark("truncations");
    for (const std::string &t : std::vector<std::string>{"# T\n\np\n\n> a\n\n* u\n  v\n\n1. o\n   p\n\n    c\n\n***\n\n<b>\n\n..\n\n## e"})
        for (size_t p = 0; p <= t.size(); p++) for (int b = 1; b < 256; b++) {
            if (b == '\f' || b == '\v') continue;   // lines of nothing but these are not specified
            if (e.stop) break;
            if (p < t.size()) e.lazy([&] { std::string w = t; w[p] = b; return w; });
            e.lazy([&] { std::string w = t; w.insert(p, 1, (char) b); return w; });
        }
    e.mark("every byte everywhere");
}
int main(int argc, char **argv) { return mc::main_(argc, argv, {enumerate, run}); }
