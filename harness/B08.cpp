// Totality: every parser ends with a result or an error on every input, stays inside its buffers and releases its memory.
#include "mc.hpp"
extern "C" {
#include "common/utils.h"
#include "common/error.h"
#include "common/config-parser.h"
#include "common/utf8.h"
#include "blogc/source-parser.h"
#include "blogc/template-parser.h"
#include "blogc/content-parser.h"
#include "blogc/filelist-parser.h"
#include "blogc/datetime-parser.h"
#include "blogc/renderer.h"
#include "blogc/toctree.h"
#include "blogc-git-receiver/shell-command-parser.h"
#include "blogc-git-receiver/pre-receive-parser.h"
#include "blogc-runserver/httpd-utils.h"
#include "blogc-runserver/mime.h"
}
using mc::Ctx; using mc::Emit; using mc::Options; typedef std::string S;

static uint64_t seen(const char *s) { return s ? mc::hash(s, strlen(s)) : 1; }
static void vis(const char *k, void *v, void *u) { *(uint64_t*) u += mc::hash(k, strlen(k)) ^ seen((char*) v); }
static uint64_t go(const S &kind, const mc::Buf &b, bool &ok) {
    bc_error_t *e = nullptr; uint64_t h = 0; ok = true;
    if (kind == "source") { auto t = blogc_source_parse(b.p, b.n, -1, &e); if (t) bc_trie_foreach(t, vis, &h); ok = !t == !!e; bc_trie_free(t); }
    else if (kind == "template") {
        auto t = blogc_template_parse(b.p, b.n, &e); ok = !e || !t;
        if (!e) {
            bc_trie_t *g = bc_trie_new(free), *s1 = bc_trie_new(free); bc_trie_insert(g, "A", strdup("x y")); bc_trie_insert(s1, "B", strdup("z"));
            bc_slist_t *l = bc_slist_append(nullptr, s1);
            for (int m = 0; m < 3; m++) { char *r = blogc_render(t, m == 2 ? nullptr : l, m == 1 ? l : nullptr, g, m > 0); h += seen(r); free(r); }
            bc_slist_free(l); bc_trie_free(g); bc_trie_free(s1);
        }
        blogc_template_free_ast(t);
    }
    else if (kind == "config") {
        char *ls[] = {(char*) "l", nullptr};
        auto c = bc_config_parse(b.p, b.n, (const char**) ls, &e); ok = !c == !!e;
        if (c) { char **ss = bc_config_list_sections(c); for (size_t i = 0; ss && ss[i]; i++) { h += seen(ss[i]); char **k = bc_config_list_keys(c, ss[i]); for (size_t j = 0; k && k[j]; j++) h += seen(bc_config_get(c, ss[i], k[j])); bc_strv_free(k); char **v = bc_config_get_list(c, ss[i]); for (size_t j = 0; v && v[j]; j++) h += seen(v[j]); bc_strv_free(v); } bc_strv_free(ss); }
        bc_config_free(c);
    }
    else if (kind == "content") {
        size_t ex = 0; char *fh = 0, *d = 0, *nl = 0; bc_slist_t *hd = 0;
        char *r = blogc_content_parse(b.p, &ex, &fh, &d, &nl, &hd); char *t = blogc_toctree_render(hd, -1, nl);
        h = seen(r) + seen(fh) + seen(d) + seen(t); ok = r && ex <= strlen(r); free(r); free(fh); free(d); free(nl); free(t); blogc_toctree_free(hd);
    }
    else if (kind == "inline") { char *r = blogc_content_parse_inline(b.p); h = seen(r); ok = r; free(r); }
    else if (kind == "filelist") { auto l = blogc_filelist_parse(b.p, b.n); for (auto p = l; p; p = p->next) h += seen((char*) p->data) * 3; bc_slist_free_full(l, free); }
    else if (kind == "date") { char *r = blogc_convert_datetime(b.p, "%Y-%m-%d %H:%M:%S", &e); h = seen(r); ok = !r == !!e; free(r); }
    else if (kind == "dateformat") { char *r = blogc_convert_datetime("2020-02-29 10:11:12", b.p, &e); h = seen(r); ok = !r == !!e; free(r); }
    else if (kind == "shell") { char *r = bgr_shell_command_parse(b.p); h = seen(r); free(r); }
    else if (kind == "hook") { auto t = bgr_pre_receive_parse(b.p, b.n); if (t) bc_trie_foreach(t, vis, &h); bc_trie_free(t); }
    else if (kind == "url") { char *r = br_urldecode(b.p); h = seen(r); ok = r; free(r); h += seen(br_get_extension(b.p)) + seen(br_mime_guess_content_type(b.p)); }
    else if (kind == "request") {
        int p[2]; if (pipe(p)) abort(); if (b.n && write(p[1], b.p, b.n) < 0) abort(); close(p[1]);
        char *r = br_readline(p[0]); close(p[0]); h = seen(r); ok = r; free(r);
    }
    else if (kind == "utf8") { h = bc_utf8_validate((uint8_t*) b.p, b.n) + 2 * bc_utf8_skip_bom((uint8_t*) b.p, b.n); }
    if (e) { ok = ok && e->msg; h += 7 * seen(e->msg); bc_error_free(e); }
    return h;
}
static void run(const std::string &c, Ctx &x) {
    auto k = c.find('\x1f'); S kind = c.substr(0, k), s = c.substr(k + 1);
    if (s.compare(0, 5, "PUMP\x1e") == 0) {   // PUMP prefix unit count suffix
        std::vector<S> f(1); for (char ch : s.substr(5)) if (ch == '\x1e') f.emplace_back(); else f.back() += ch;
        S t = f[0]; for (long n = atol(f[2].c_str()); n > 0; n--) t += f[1]; s = t + f[3];
    }
    mc::Buf b(s); bool ok; mc::Heap hp;
    uint64_t h = go(kind, b, ok);
    long d = hp.diff();
    if (d) x.fail(kind + ": " + std::to_string(d) + " bytes not released for \"" + mc::show(s) + "\"");
    if (!ok) x.fail(kind + ": neither or both of a result and an error for \"" + mc::show(s) + "\"");
    x.trans(s.size()); x.state(mc::hash(kind, h)); x.outcome(kind + std::to_string(h));
}
static const std::map<S, std::vector<S>> TOK = {
    {"source", {"A", "B:", ":", " ", "\n", "\r", "-", "--\n", "x", "TOCTREE_MAXDEPTH:", "# h\n", S(1, 0)}},
    {"template", {"{%", "%}", "-", " ", "{{", "}}", "A", "if ", "ifdef A", "else", "endif", "foreach A", "endforeach", "block entry", "block listing", "endblock", "== \"", "\"", "x", "{", "}"}},
    {"config", {"[", "]", "a", "=", "\"", "\\", "\n", "\r", "#", " ", "[l]\n", S(1, 0)}},
    {"content", {"a", "#", " ", "*", ">", "1.", "<", "..", "---", "\n", "\n\n", "\r\n", "    ", "- ", "  "}},
    {"inline", {"*", "**", "_", "`", "[", "]", "(", ")", "!", "-", " ", "\\", "a", "\n"}},
    {"filelist", {"a", "#", " ", "\t", "\n", "\r", "\f", "\v", S(1, 0), "\\"}},
    {"date", {"2", "0", "1", "9", "-", " ", ":", "x", "2010-01-31", " 11:12"}},
    {"dateformat", {"%", "Y", "a", " ", "E", "O", "-", "5", "n", "%c", "%%", "x"}},
    {"shell", {"git-receive-pack ", "git-upload-pack ", "'", "\\", "!", "/", "..", "a", " ", "\n"}},
    {"hook", {"0", " ", "\n", "refs/heads/", "a", "refs/", S(1, 0), "b\n"}},
    {"url", {"%", "4", "1", "f", "G", "+", ".", "/", "a", "html", "\\", "%00", "\xff"}},
    {"request", {"GET ", "/", "\r\n", "a", S(1, 0), "HTTP/1.1", " "}},
    {"utf8", {"a", "\x80", "\xbf", "\xc2", "\xe0", "\xef", "\xbb", "\xf0", "\xf4", "\xff", "\xed", "\xa0"}},
};
static const std::map<S, std::vector<S>> FULL = {
    {"source", {"TITLE: a\nDATE: 2020-01-01\nTAGS: a b\n-----\n# Head\n\npar *x*\n\n..\n\n* a\n* b\n"}},
    {"template", {"a{% block entry %}{% if A == \"x\" %}{{ A_3 }}{% else %}b{%- endif -%}{% foreach A %}{{ FOREACH_ITEM }}{% endforeach %}{% endblock %}{% ifdef B %}c{% endif %}", "{% block listing %}{% ifndef A %}{% if A >= B %}x{% endif %}{% endif %}{% endblock %}"}},
    {"config", {"# c\n[a]\nk = v\nq = \" x \\\" \"\n[l]\nitem\n\"quoted\"\n; d\n[b]\nz=\n"}},
    {"content", {"# H *x*\n\n> q\n> * b\n>   c\n\n1. a\n   b\n2. c\n\n    code\n\n***\n\n<p>\n\n..\n\n![a](b) [c](d) [[e]] `f` --- g  \nh\n", "* a\n* b\nc\n\n1. x\ny\n\n> z\nw\n\n  k\nl"}},
    {"inline", {"**a** __b__ *c* _d_ `e` ``f`` [g](h) ![i](j) [[k]] -- --- l  \nm \\* [![n](o)](p)"}},
    {"filelist", {"a.txt\n# c\n  b.txt \r\nc d.txt"}},
    {"date", {"2010-12-31 23:59:58"}},
    {"shell", {"git-receive-pack 'foo/bar.git'", "git-upload-archive '/a'\\''b'\\!''"}},
    {"hook", {"0123456789012345678901234567890123456789 1123456789012345678901234567890123456789 refs/heads/master\n0000000000000000000000000000000000000000 2223456789012345678901234567890123456789 refs/tags/v1\n"}},
    {"url", {"/a/b%20c+d.HTML?q=%41#f"}},
    {"request", {"GET /a%20b HTTP/1.1\r\nHost: x\r\n\r\n"}},
    {"utf8", {"\xef\xbb\xbf" "a\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80z"}},
};
static void enumerate(Emit &e, const Options &o) {
    bool th = o.tier == "thorough"; e.mark("");
    for (auto &k : TOK) {
        size_t n = k.second.size(), cap = th ? 12000000 : 600000, total = 1; int hi = 0;
        while (total * n <= cap && hi < 12) { total *= n; hi++; }
        if (k.first == "request") hi = std::min(hi, th ? 6 : 5);
        mc::each_word(n, 0, hi, [&](const std::vector<size_t> &ix) { if (e.stop) return; e.lazy([&] { S s = k.first + "\x1f"; for (size_t i : ix) s += k.second[i]; return s; }); });
        e.mark((k.first + " words").c_str());
    }
    // every truncation, substitution, insertion and deletion of complete inputs; all pairs of edits over a small alphabet
    for (auto &k : FULL) for (auto &t : k.second) {
        S pre = k.first + "\x1f";
        for (size_t i = 0; i <= t.size(); i++) {
            e(pre + t.substr(0, i)); e(pre + t.substr(i));
            for (int b = 0; b < 256; b++) { e.lazy([&] { return pre + t.substr(0, i) + (char) b + t.substr(i); }); if (i < t.size()) e.lazy([&] { S u = t; u[i] = b; return pre + u; }); e.lazy([&] { return pre + t.substr(0, i) + (char) b; }); }
            for (size_t l = 1; i + l <= t.size(); l++) e.lazy([&] { return pre + t.substr(0, i) + t.substr(i + l); });
            if (e.stop) return;
        }
        const S al = th ? S("\n\r\"\\'*[]{%-# \0", 14) : S("\n\"\\*]%", 6);
        for (size_t i = 0; i < t.size(); i++) for (size_t j = i + 1; j < t.size(); j++) { if (e.stop) return; for (char a : al) for (char b : al) e.lazy([&] { S u = t; u[i] = a; u[j] = b; return pre + u; }); }
        e.mark((k.first + " edits").c_str());
    }
    // repeated tokens: deep nesting and long inputs
    for (auto &k : TOK) for (auto &a : k.second) for (auto &b : k.second) for (const char *n : {"3", "100", "1500"}) {
        if (e.stop) return;
        if (k.first == "request" && strlen(n) > 2) continue;
        e.lazy([&] { return k.first + "\x1fPUMP\x1e\x1e" + a + b + "\x1e" + n + "\x1e"; });
        if (a != b) e.lazy([&] { return k.first + "\x1fPUMP\x1e" + a + "\x1e" + b + "\x1e" + n + "\x1e" + a; });
    }
    e.mark("repetitions");
}
int main(int argc, char **argv) {
    tzset(); char w[9]; time_t z = 0; strftime(w, 9, "%Y", gmtime(&z));   // libc allocates its time zone once
    return mc::main_(argc, argv, {enumerate, run}); }
