// First header, description, excerpt and table of contents of whole source files against the reference.
#include "mc.hpp"
#include "markref.hpp"
extern "C" {
#include "common/utils.h"
#include "common/error.h"
#include "blogc/source-parser.h"
#include "blogc/toctree.h"
}
using mc::Ctx; using mc::Emit; using mc::Options; using mark::S;

static S toc(const std::vector<mark::Head> &h, long maxdepth, const S &eol) {
    if (h.empty() || maxdepth == 0) return "";
    size_t low = ~0ul; for (auto &x : h) low = std::min(low, x.level);
    // nested lists: level low is the outermost list
    S r = "<ul>" + eol; size_t cur = low;
    for (auto &x : h) {
        if (maxdepth > 0 && x.level - low >= (size_t) maxdepth) continue;
        for (; cur > x.level; cur--) r += "</ul>" + eol;
        for (; cur < x.level; cur++) r += "<ul>" + eol;
        r += "<li><a href=\"#" + x.slug + "\">" + x.html + "</a></li>" + eol;
    }
    for (; cur >= low && cur; cur--) r += "</ul>" + eol;
    return r;
}
static S noindent(const S &s) {
    S r; bool bol = true; for (char c : s) { if (bol && c == ' ') continue; bol = c == '\n' || c == '\r'; r += c; } return r;
}
static bool get(bc_trie_t *t, const char *k, S &v) { const char *p = (const char*) bc_trie_lookup(t, k); if (p) v = p; return p; }
// fields: depth option, source depth ("-" none), explicit set bits, eol index, content
static void run(const std::string &c, Ctx &x) {
    auto f = mc::fields(c);
    long opt = atol(f[0].c_str()); int bits = f[2][0] - '0'; S eol = f[3] == "0" ? "\n" : f[3] == "1" ? "\r\n" : "\r";
    S body; for (char ch : f[4]) if (ch == '\n') body += eol; else body += ch;
    S src = "TITLE: t" + eol;
    if (f[1] != "-") src += "TOCTREE_MAXDEPTH:" + f[1] + eol;
    if (bits & 1) src += "FIRST_HEADER: fh&amp;" + eol;
    if (bits & 2) src += "DESCRIPTION: de" + eol;
    if (bits & 4) src += "TOCTREE: tt" + eol;
    if (bits & 8) src += "FIRST_HEADER:" + eol;
    src += "---" + eol + body;
    mark::Doc w = mark::blocks(body, "", true);
    if (w.unspecified) { x.count("meaning left open by the manual"); }
    S e; for (auto &l : mark::lines(body)) if (!l.eol.empty()) { e = l.eol; break; } if (e.empty()) e = "\n";
    mc::Buf b(src); bc_error_t *err = nullptr;
    S what = " of \"" + mc::show(src) + "\" depth " + f[0], v;
    size_t before = __sanitizer_get_current_allocated_bytes();
    bc_trie_t *t = blogc_source_parse(b.p, b.n, opt, &err);
    bool bad = false; long depth = opt;
    if (f[1] != "-") { S d = mark::strip(f[1]); char *end; depth = strtol(d.c_str(), &end, 10); bad = !d.empty() && *end; }
    if (bad && !w.heads.empty() && !(bits & 4)) {
        if (t || !err) x.fail("invalid depth accepted" + what); 
        bc_error_free(err); bc_trie_free(t); err = nullptr;
        if (__sanitizer_get_current_allocated_bytes() != before) x.fail("leak after an invalid depth" + what);
        x.outcome("error"); x.trans(); x.state("bad"); return;
    }
    if (!t || err) { if (!bad) x.fail("rejected" + what); bc_error_free(err); bc_trie_free(t); return; }
    if (body.empty()) { bc_trie_free(t); return; }
    S out;
    if (!w.unspecified) {
        if (get(t, "CONTENT", v)) x.eq("content" + what, v, w.html); else x.fail("no content" + what);
        // excerpt
        std::vector<S> ok; for (size_t p : w.excerpts) { ok.push_back(w.html.substr(0, p)); if (p == 0) ok.push_back(w.html); } if (w.excerpts.empty()) ok.push_back(w.html);
        if (!get(t, "EXCERPT", v)) x.fail("no excerpt" + what);
        else if (std::find(ok.begin(), ok.end(), v) == ok.end()) x.fail("excerpt" + what + ": got \"" + mc::show(v) + "\" want \"" + mc::show(ok[0]) + "\"");
        out += v + "|";
        S raw = body; size_t k = raw.find_first_not_of("\r\n"); raw = k == S::npos ? "" : raw.substr(k);
        if (get(t, "RAW_CONTENT", v)) x.eq("raw content" + what, v, raw); else x.fail("no raw content" + what);
        // first header and description: explicit definitions win
        bool has = get(t, "FIRST_HEADER", v);
        S wfh = bits & 8 ? "" : bits & 1 ? "fh&amp;" : w.first_header;
        if (has != ((bits & 9) || w.has_header)) x.fail(S("FIRST_HEADER ") + (has ? "defined" : "undefined") + what); else if (has) x.eq("FIRST_HEADER" + what, v, wfh);
        out += (has ? v : "") + "|"; has = get(t, "DESCRIPTION", v);
        if (has != ((bits & 2) || w.has_description)) x.fail(S("DESCRIPTION ") + (has ? "defined" : "undefined") + what); else if (has) x.eq("DESCRIPTION" + what, v, bits & 2 ? "de" : w.description);
        out += (has ? v : "") + "|"; has = get(t, "TOCTREE", v);
        S wt = toc(w.heads, depth, e);
        if (bits & 4) { if (!has || v != "tt") x.fail("explicit TOCTREE lost" + what); }
        else if (f[1] == "") ;   // an empty depth is not documented
        else if (has != !wt.empty()) x.fail(S("TOCTREE ") + (has ? "defined" : "undefined") + what);
        else if (has) x.eq("TOCTREE" + what, noindent(v), wt);
        out += (has ? v : "");
        // every link of the table leads to a header of the content
        if (has && !(bits & 4)) {
            S html; get(t, "CONTENT", html);
            for (size_t p = 0; (p = v.find("<a href=\"#", p)) != S::npos; ) { p += 10; S s = v.substr(p, v.find('"', p) - p); if (html.find(" id=\"" + s + "\">") == S::npos) x.fail("dangling anchor " + s + what); }
        }
    }
    bc_trie_free(t);
    x.trans(5); S kinds; for (auto &k : w.kinds) kinds += k + " "; for (auto &h : w.heads) kinds += std::to_string(h.level); x.state(kinds + f[0] + f[1] + f[2]); x.outcome(out);
}
static void enumerate(Emit &e, const Options &o) {
    bool th = o.tier == "thorough";
    const std::vector<S> blk = {"# A b\n", "## B&<\n", "### c *d*\n", "#### A b\n", "p *q*\nr  \n", "> # q\n> para\n", "..\n", "* li\n", "    code\n", "<p>raw</p>\n", "***\n", "1. x\n"};
    const std::vector<S> heads = {"# a\n", "## b\n", "### c\n", "##### d\n", "p\n"};
    e.mark("");
    auto emit = [&](S body, const char *opt, const char *d, int bits, int eol) { e.lazy([&] { return mc::join({opt, d, S(1, (char) ('0' + bits)), std::to_string(eol), body}); }); };
    // all documents of blocks, with empty lines between them, with and without the last line ending
    mc::each_word(blk.size(), 0, th ? 5 : 4, [&](const std::vector<size_t> &ix) {
        if (e.stop) return;
        S s; for (size_t i = 0; i < ix.size(); i++) s += (i ? "\n" : "") + blk[ix[i]];
        emit(s, "-1", "-", 0, 0);
        if (!s.empty()) emit(s.substr(0, s.size() - 1), "-1", "-", 0, 0);
        if (ix.size() <= 3) for (int eol = 0; eol < 3; eol++) for (int bits : {0, 1, 2, 4, 3, 8}) if (eol || bits) emit(s, "-1", "-", bits, eol);
    });
    e.mark("blocks");
    mc::each_word(blk.size(), 2, th ? 4 : 3, [&](const std::vector<size_t> &ix) { if (e.stop) return; S s; for (size_t i : ix) s += blk[i]; emit(s, "-1", "-", 0, 0); });
    e.mark("adjacent blocks");
    // all header level sequences with all depths
    mc::each_word(heads.size(), 1, th ? 7 : 5, [&](const std::vector<size_t> &ix) {
        if (e.stop) return;
        S s; for (size_t i : ix) s += heads[i];
        for (const char *opt : {"-1", "0", "1", "2", "3", "5"}) emit(s, opt, "-", 0, 0);
        for (const char *d : {" 0", " 1", " 2", "-1", "", " x", " 1x", " 4"}) { emit(s, "-1", d, 0, 0); emit(s, "1", d, 0, 1); }
        emit(s, "2", "1", 4, 0);
    });
    e.mark("header levels");
}
int main(int argc, char **argv) { return mc::main_(argc, argv, {enumerate, run}); }
