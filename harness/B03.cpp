// Variable lookup: every name over the stem/suffix vocabulary under every assignment of definitions to the two scopes.
#include "tmplref.hpp"
using namespace tr;
using mc::Ctx; using mc::Emit; using mc::Options;

static std::string enc(const Map &m) { std::string r; for (auto &p : m) r += p.first + "=" + p.second + "\x1e"; return r; }
static Map dec(const std::string &s) {
    Map m; size_t i = 0;
    while (i < s.size()) { size_t e = s.find('\x1e', i), q = s.find('=', i); m[s.substr(i, q - i)] = s.substr(q + 1, e - q - 1); i = e + 1; }
    return m;
}
static Node V(const std::string &n) { Node x; x.kind = 'v'; x.a = n; return x; }
static Node T(const std::string &n) { Node x; x.kind = 't'; x.a = n; return x; }
static Node C(char k, const std::string &n, const std::string &op = "", const std::string &b = "") { Node x; x.kind = k; x.a = n; x.op = op; x.b = b; x.body = {T("1")}; x.els = {T("0")}; x.has_else = true; return x; }

static void run(const std::string &c, Ctx &x) {
    auto f = mc::fields(c);
    const std::string &name = f[0]; Env e; e.listing = false; e.global = dec(f[1]); e.sources.push_back(dec(f[2]));
    // 1. the lookup function itself, inside and outside of an iterator
    CTrie g(e.global), l(e.sources[0]);
    for (int each = 0; each < 2; each++) for (int loc = 0; loc < 2; loc++) {
        Eval ev(e); if (loc) ev.local = &e.sources[0];
        if (each) { ev.in_each = true; ev.each_name = "TAGS"; ev.item = f[3]; }
        std::string want; bool def = ev.var(name, want);
        bc_slist_t item = {nullptr, (void*) f[3].c_str()};
        char *got = blogc_format_variable(name.c_str(), g.t, loc ? l.t : nullptr, each ? "TAGS" : nullptr, each ? &item : nullptr);
        std::string where = std::string("variable ") + name + (each ? " in iterator" : "") + (loc ? " in entry" : " outside of blocks");
        x.trans(); x.state((def ? "=" : "-") + want);
        if (def != (got != nullptr)) x.fail(where + (def ? " should be defined as \"" + mc::show(want) + "\"" : std::string(" should be undefined, got \"") + mc::show(got) + "\""));
        else if (def) x.eq(where, got, want);
        free(got);
        if (x.bad) return;
    }
    // 2. the same through a rendered template: value, defined or not, comparison with itself and with its own text
    std::vector<Node> inner{T("<"), V(name), T("|"), C('d', name), C('n', name), C('c', name, "==", name), C('c', name, "==", "\"" + f[4] + "\""), T(">")};
    Node each; each.kind = 'f'; each.a = "TAGS"; each.body = inner;
    Node b; b.kind = 'b'; b.a = "entry"; b.body = inner; b.body.push_back(each);
    std::vector<Node> t = inner; t.push_back(each); t.push_back(b);
    std::string src = print(t), err; bc_slist_t *ast = real_parse(src, err);
    if (!err.empty()) { x.fail("template rejected: " + err); return; }
    std::string got = real_render(ast, e); uint64_t st = 0; std::string want = tr::want(t, e, got, st);
    blogc_template_free_ast(ast);
    x.outcome(got);
    x.eq("rendering of " + name, got, want);
}

static void enumerate(Emit &e, const Options &o) {
    bool th = o.tier == "thorough";
    std::vector<std::string> sfx{"", "_3", "_1", "_12", "_FORMATTED", "_FORMATTED_3", "_FORMATTED_12", "_FORMATTED_FORMATTED", "_3_FORMATTED", "_3_2", "_", "__3", "_A", "3", "_0", "_003", "_99999999999999999999", "_2147483647", "_4294967299", "_FORMATTED_", "_FORMATTEDX", "_FORMATTED_FORMATTED_4"};
    struct Stem { std::string n, gv, lv; };
    std::vector<Stem> stems{
        {"A", "global", "lo"}, {"A", "\xc3\xa9\xe2\x82\xac\xf0\x9d\x84\x9ez\xc3\xbc", "l\xc3\xa3\xc3\xa3l"}, {"X_Y", "", "x y"},
        {"DATE", "2010-11-30 12:13:14", "2011-01-02"}, {"DATE_FIRST", "2012-02-29 03", "1999-12-31 23:59"}, {"DATE_LAST", "garbage", "2010-13-01"},
        {"DATE_FORMATTED", "2010-11-30", "2011-01-02"}, {"UPDATE", "2010-11-30", "2011-01-02"}, {"FOREACH_ITEMS", "gi", "li"}, {"DATED", "2010-11-30", "2011"}};
    std::vector<std::string> fmts{"", "%Y/%m/%d", "[%a %j %H:%M:%S]"};
    std::vector<std::string> items{"it-1", "x"};
    if (th) items.push_back("\xc3\xa9Z9_");
    for (auto &s : stems) for (auto &sf : sfx) {
        std::string name = s.n + sf;
        // the names that could decide: the stem with every suffix dropped from the right
        std::vector<std::string> keys; std::set<std::string> seen;
        for (const std::string &k : {s.n, name, s.n + "_FORMATTED", s.n + "_3", s.n + "_FORMATTED_3", s.n.substr(0, s.n.find('_'))}) if (k.size() && seen.insert(k).second) keys.push_back(k);
        int n = keys.size(); long total = 1; for (int i = 0; i < n; i++) total *= 4;
        for (long a = 0; a < total; a++) for (size_t df = 0; df < fmts.size(); df++) for (int dl = 0; dl < (df ? 2 : 1); dl++) {
            if (!th) {   // quick: only three of the keys take all four assignments, the others none or both
                bool skip = false; long q = a; for (int i = 0; i < n; i++, q /= 4) if (i > 2 && (q & 3) % 3) skip = true;
                if (skip) continue;
            }
            if (e.stop) return;
            e.lazy([&] {
                Map g{{"TAGS", "it-1 x"}, {"TAGS__IT_1", "Mapped value"}}, l;
                long q = a;
                for (int i = 0; i < n; i++, q /= 4) {
                    std::string suf = i ? std::to_string(i) : "";
                    if (q & 1) g[keys[i]] = s.gv + (i && s.n.compare(0, 4, "DATE") ? suf : "");
                    if (q & 2) l[keys[i]] = s.lv + (i && s.n.compare(0, 4, "DATE") ? suf : "");
                }
                if (df) (dl ? l : g)["DATE_FORMAT"] = fmts[df];
                return mc::join({name, enc(g), enc(l), items[a % items.size()], s.gv});
            });
        }
    }
    e.mark("names x definitions");
    // iterator variables: item/value with every suffix, mapped value defined in either scope
    for (const std::string &st : {"FOREACH_ITEM", "FOREACH_VALUE"}) for (auto &sf : sfx) for (auto &it : std::vector<std::string>{"it-1", "x", "9", "\xc3\xa9Z9_", "averylongitemname", "2010-11-30"})
        for (int a = 0; a < 16; a++) e.lazy([&] {
            Map g, l; std::string k = "TAGS__" + it; for (auto &c : k) if (c >= 'a' && c <= 'z') c -= 32; else if (!isalnum((unsigned char) c) || (c & 0x80)) c = '_';
            if (a & 1) g[k] = "global mapped"; if (a & 2) l[k] = "lo\xc3\xa9" "cal"; (a & 4 ? l : g)["TAGS"] = it; if (a & 8) g["DATE_FORMAT"] = "%Y";
            return mc::join({st + sf, enc(g), enc(l), it, "global mapped"});
        });
    for (int b = 1; b < 256; b++) if (!strchr(" \t\n\v\f\r\x1d\x1e\x1f", b)) for (const char *f : {"", "a", "Z"}) for (const char *g : {"", "b", "9"}) for (int a = 0; a < 4; a++) e.lazy([&] {
        std::string it = std::string(f) + (char) b + g, k = "TAGS__" + it; for (auto &c : k) if (c >= 'a' && c <= 'z') c -= 32; else if (!isalnum((unsigned char) c) || (c & 0x80)) c = '_';
        Map m, l; if (a & 1) m[k] = "mapped"; if (a & 2) l[k] = "local"; l["TAGS"] = it;
        return mc::join({"FOREACH_VALUE", enc(m), enc(l), it, "mapped"});
    });
    e.mark("iterator variables");
    // truncation: every length of value and of N, with characters of 1..4 bytes
    std::vector<std::string> ch{"a", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9d\x84\x9e"};
    mc::each_word(ch.size(), 0, th ? 6 : 4, [&](const std::vector<size_t> &ix) {
        for (int n = 0; n <= 7; n++) { if (e.stop) return; e.lazy([&] { std::string v; for (size_t k : ix) v += ch[k]; return mc::join({"A_" + std::to_string(n), enc(Map{{"A", v}}), "", "x", v}); }); }
    });
    for (int len = 0; len <= 40; len++) for (int n = 0; n <= 42; n++) e.lazy([&] { std::string v; for (int i = 0; i < len; i++) v += (char) ('a' + i % 26); return mc::join({"A_" + std::to_string(n), "", enc(Map{{"A", v}}), "x", v}); });
    e.mark("truncation");
    // lists: every string over item/space
    mc::each_word(3, 0, th ? 9 : 7, [&](const std::vector<size_t> &ix) { if (e.stop) return; e.lazy([&] { std::string v; for (size_t k : ix) v += "a b"[k] == ' ' ? ' ' : "a b"[k]; return mc::join({"FOREACH_ITEM", enc(Map{{"TAGS", v}}), "", "x", "a"}); }); });
    e.mark("lists");
}
int main(int argc, char **argv) { return mc::main_(argc, argv, {enumerate, run}); }
