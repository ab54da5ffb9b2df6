// Positions in parser error messages.
#include "mc.hpp"
extern "C" {
#include "common/utils.h"
#include "common/error.h"
#include "common/config-parser.h"
#include "blogc/source-parser.h"
#include "blogc/template-parser.h"
}
using mc::Ctx; using mc::Emit; using mc::Options;
static const char *EOLS[] = {"\n", "\r", "\r\n"};

// the line and column of offset off; lines end with eol
static void locate(const std::string &s, size_t off, const std::string &eol, size_t &line, size_t &col, std::string &text) {
    line = 1; size_t start = 0;
    while (true) {
        size_t e = s.find(eol, start);
        if (e == std::string::npos || off < e + eol.size()) { text = s.substr(start, e == std::string::npos ? e : e - start); col = off - start + 1; return; }
        start = e + eol.size(); line++;
    }
}
static void judge(const std::string &what, const std::string &msg, const std::string &s, size_t off, const std::string &eol, Ctx &x) {
    size_t line, col; std::string text; locate(s, off, eol, line, col, text);
    std::string want = text.empty() ? "" : "Error occurred near line " + std::to_string(line) + ", position " + std::to_string(col) + ": " + text;
    size_t k = msg.find('\n'); std::string got = k == std::string::npos ? "" : msg.substr(k + 1);
    x.trans(off); x.state(std::to_string(line) + ":" + std::to_string(col) + text); x.outcome(msg);
    x.eq(what + " (offset " + std::to_string(off) + ")", got, want);
    if (msg.empty() || k == 0) x.fail("no message");
}
// fields: kind, eol index, offset, text
static void run(const std::string &c, Ctx &x) {
    auto f = mc::fields(c);
    std::string eol = EOLS[f[1][0] - '0'], s; size_t off = atol(f[2].c_str());
    // '~' stands for a line ending, '@' marks the offending character
    for (char ch : f[3]) if (ch == '~') s += eol; else if (ch == '@') off = s.size(); else s += ch;
    mc::Buf b(s);
    if (f[0] == "raw") {
        bc_error_t *e = bc_error_parser(BC_ERROR_CONFIG_PARSER, b.p, b.n, off, "Some %s.", "problem");
        judge("bc_error_parser", e->msg, s, off, eol, x);
        if (strncmp(e->msg, "Some problem.", 13)) x.fail("message text lost");
        bc_error_free(e);
        return;
    }
    bc_error_t *e = nullptr;
    if (f[0] == "config") bc_config_free(bc_config_parse(b.p, b.n, nullptr, &e));
    else if (f[0] == "source") bc_trie_free(blogc_source_parse(b.p, b.n, -1, &e));
    else blogc_template_free_ast(blogc_template_parse(b.p, b.n, &e));
    if (!e) { x.fail("no error for \"" + mc::show(s) + "\""); return; }
    judge(f[0] + " \"" + mc::show(s) + "\"", e->msg, s, off, eol, x);
    bc_error_free(e);
}
static void enumerate(Emit &e, const Options &o) {
    bool th = o.tier == "thorough";
    for (int k = 0; k < 3; k++) {
        std::string n = std::to_string(k);
        mc::each_word(3, 0, th ? 10 : 7, [&](const std::vector<size_t> &ix) {
            if (e.stop) return;
            std::string t; size_t len = 0; for (size_t i : ix) { t += "~ab"[i]; len += i ? 1 : strlen(EOLS[k]); }
            for (size_t off = 0; off <= len; off++) e.lazy([&] { return mc::join({"raw", n, std::to_string(off), t}); });
        });
        e.mark("raw");
        struct Spec { const char *parser; std::vector<std::string> before, bad, after; };
        std::vector<Spec> specs{
            {"config", {"", "# c~", "~", "[s]~", "[s]~a=1~", " ~[s]~k = \"v\"~", "[s]~; x~~b=2~", "[s]~q = \"x~y\"~"},
                {"[z@~", "[zz z@~", "[z]~nokey@~", "[z]~ no key  @~", "[z]~a = \"b\" @c", "[z]~k =\"v\"  @#", "[z]~a = \"b\"\t@x y", "[z]~a=\"~\"@x"}, {"", "~", "~x = 1~", "d~~[z]"}},
            {"config", {"", "# c~", "~", " ; [x]~"}, {"@x = 1", "@a", "@\"x\"", "@=~"}, {"", "~", "~[x]~"}},
            {"source", {"", "~", "A: 1~", "A: 1~~B: 2~", " ~ ~K:~", "A: 1~  "}, {"@a: 1", "A@b: 1", "A@ : 1", "--@x", "---@ ", "@*", "A1@.", "@\xc3\xa9"}, {"", "~", "~x", "~---~c~"}},
            {"template", {"", "~", "text~", "{{ A }}~", "{% block entry %}~x~{% endblock %}~", "a~~b ", "{%- ifdef X~%}~{% endif -%}~", "{{~A~}}", "{% foreach L %}~{{ FOREACH_ITEM }}{% endforeach %} "},
                {"{{ @a", "{{ A@a", "{{ A @x", "{{ A }@x", "{% @1", "{% ifdef @a", "{% ifdef A @x", "{% if A = @x", "{{@%", "{% block @1", "{% ifdef A %@x", "{% foreach @a", "{{ A~ @x", "{% ifdef~@a"}, {"", "~", "~x", " %}~{% endif %}~"}}};
        for (auto &sp : specs) for (auto &b1 : sp.before) for (auto &b2 : sp.before) for (auto &bad : sp.bad) for (auto &a : sp.after) for (const char *ind : {"", " ", "\t  "}) {
            e.lazy([&] { return mc::join({sp.parser, n, "0", b1 + b2 + ind + bad + a}); });
        }
        e.mark("parsers");
    }
}
int main(int argc, char **argv) { return mc::main_(argc, argv, {enumerate, run}); }
