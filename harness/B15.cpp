// Core containers against their abstract types: every operation history up to a depth, every short string.
#include "mc.hpp"
#include <memory>
extern "C" {
#include "common/utils.h"
#include "common/sort.h"
}
using mc::Ctx; using mc::Emit; using mc::Options;
typedef std::vector<std::string> SV;

// ---- key-value map ----
static const SV KEYS{"", "a", "ab", "abc", "b", "ba", "ac", "\xff" "a"};
static int freed;
static void count_free(void *p) { freed++; free(p); }
struct Seen { std::vector<std::pair<std::string, std::string>> v; };
static void visit(const char *k, void *d, void *u) { ((Seen*) u)->v.emplace_back(k, (char*) d); }
static void trie(const std::string &ops, Ctx &x) {
    mc::Heap hp; freed = 0;
    bc_trie_t *t = bc_trie_new(count_free); std::map<std::string, std::string> m; int inserted = 0;
    for (size_t i = 0; i < ops.size() && !x.bad; i++) {
        int o = ops[i] - '0'; std::string k = KEYS[o / 2], v = std::string(1 + o % 2, 'u' + (i % 3));
        mc::Buf kb(k);
        bc_trie_insert(t, kb.p, strdup(v.c_str())); inserted++; m[k] = v; x.trans();
        for (auto &q : KEYS) for (const std::string &e : {std::string(), std::string("z")}) {
            std::string key = q + e; const char *r = (const char*) bc_trie_lookup(t, key.c_str()); auto it = m.find(key);
            if ((r != nullptr) != (it != m.end()) || (r && it->second != r)) { x.fail("lookup \"" + mc::show(key) + "\" after step " + std::to_string(i) + ": got " + (r ? r : "(none)") + " want " + (it == m.end() ? "(none)" : it->second)); break; }
        }
        if (bc_trie_size(t) != m.size()) x.fail("size after step " + std::to_string(i) + ": " + std::to_string(bc_trie_size(t)) + " want " + std::to_string(m.size()));
        Seen s; bc_trie_foreach(t, visit, &s);
        std::multiset<std::pair<std::string, std::string>> a(s.v.begin(), s.v.end()), b(m.begin(), m.end());
        if (a != b) x.fail("iteration after step " + std::to_string(i) + " does not list every key once with its value");
        std::string st; for (auto &p : m) st += p.first + "=" + p.second + ";"; x.state("t" + st);
        if (i + 1 == ops.size()) x.outcome("t" + st);
    }
    bc_trie_free(t);
    if (freed != inserted) x.fail("values released: " + std::to_string(freed) + " of " + std::to_string(inserted));
}
// ---- list ----
struct Item { int key, id; };
static int asc(const void *a, const void *b) { return ((Item*) a)->key - ((Item*) b)->key; }
static int desc(const void *a, const void *b) { return ((Item*) b)->key - ((Item*) a)->key; }
static bool sorted_ok(const std::vector<Item*> &l, bool up, const std::vector<Item*> &before) {
    std::vector<Item*> w = before; std::stable_sort(w.begin(), w.end(), [&](Item *a, Item *b) { return up ? a->key < b->key : b->key < a->key; });
    return w == l;
}
static std::vector<Item*> items(bc_slist_t *l) { std::vector<Item*> r; for (int g = 0; l && g < 1000; l = l->next, g++) r.push_back((Item*) l->data); return r; }
static void slist(const std::string &ops, Ctx &x) {
    std::vector<std::unique_ptr<Item>> keep; std::vector<Item*> m; bc_slist_t *l = nullptr;
    auto mk = [&](int k) { keep.emplace_back(new Item{k, (int) keep.size()}); return keep.back().get(); };
    for (size_t i = 0; i < ops.size() && !x.bad; i++) {
        int o = ops[i] - '0'; x.trans();
        auto before = m;
        if (o < 3) { Item *p = mk(o); l = bc_slist_append(l, p); m.push_back(p); }
        else if (o < 6) { Item *p = mk(o - 3); l = bc_slist_prepend(l, p); m.insert(m.begin(), p); }
        else if (o < 9) { bc_slist_t *n = nullptr; for (int k = 0; k < o - 6; k++) { Item *p = mk(k + i % 2); n = bc_slist_append(n, p); m.push_back(p); } l = bc_slist_append_list(l, n); }
        else { l = bc_slist_sort(l, o == 9 ? asc : desc); std::stable_sort(m.begin(), m.end(), [&](Item *a, Item *b) { return o == 9 ? a->key < b->key : b->key < a->key; }); }
        auto got = items(l);
        if (got != m) x.fail("list differs from the sequence after step " + std::to_string(i) + (o >= 9 ? " (sort)" : ""));
        if (bc_slist_length(l) != m.size()) x.fail("length " + std::to_string(bc_slist_length(l)) + " want " + std::to_string(m.size()));
        std::string st = "l"; for (auto p : m) st += (char) ('0' + p->key); x.state(st); if (i + 1 == ops.size()) x.outcome(st);
    }
    bc_slist_free(l);
}
static void sort_(const std::string &keys, Ctx &x) {
    std::vector<std::unique_ptr<Item>> keep; std::vector<Item*> m; bc_slist_t *l = nullptr;
    for (char c : keys) { keep.emplace_back(new Item{c - '0', (int) keep.size()}); m.push_back(keep.back().get()); l = bc_slist_append(l, m.back()); }
    for (bool up : {true, false, true}) { l = bc_slist_sort(l, up ? asc : desc); auto g = items(l); x.trans(); if (!sorted_ok(g, up, m)) x.fail("sorting " + keys + (up ? " ascending" : " descending") + " is not a stable permutation"); m = g; }
    std::string st = "s"; for (auto p : m) st += (char) ('0' + p->key); x.state(st); x.outcome(st);
    bc_slist_free_full(l, nullptr);
}
// ---- string buffer ----
static void sbuf(const std::string &ops, Ctx &x) {
    bc_string_t *s = bc_string_new(); std::string m;
    for (size_t i = 0; i < ops.size() && !x.bad; i++) {
        std::string add; x.trans();
        switch (ops[i]) {
            case '0': s = bc_string_append(s, ""); break;
            case '1': s = bc_string_append(s, "a"); m += "a"; break;
            case '2': case '3': case '4': case '5': add = std::string(125 + (ops[i] - '2'), 'a' + i % 26); s = bc_string_append(s, add.c_str()); m += add; break;
            case '6': s = bc_string_append_c(s, 'z'); m += 'z'; break;
            case '7': { mc::Buf b("abcdef"); s = bc_string_append_len(s, b.p + 1, 3); m += "bcd"; break; }
            case '8': s = bc_string_append_printf(s, "%s-%d%%", "q", 42); m += "q-42%"; break;
            case '9': s = bc_string_append_escaped(s, "x\\*y\\\\z\\"); m += "x*y\\z"; break;
            case ':': { s = bc_string_append_len(s, "n\0m", 3); m += std::string("n\0m", 3); break; }
            case ';': s = bc_string_append(s, nullptr); s = bc_string_append_len(s, nullptr, 5); s = bc_string_append_escaped(s, nullptr); s = bc_string_append_printf(s, nullptr); break;
            case '<': { bc_string_t *d = bc_string_dup(s); bc_string_free(s, true); s = d; break; }
            case '=': add = std::string(300, 'L'); s = bc_string_append_printf(s, "%s", add.c_str()); m += add; break;
            case '>': for (int k = 0; k < 127; k++) s = bc_string_append_c(s, 'k'); m += std::string(127, 'k'); break;
        }
        if (s->len != m.size() || memcmp(s->str, m.data(), m.size()) || s->str[m.size()] != 0) x.fail("buffer after step " + std::to_string(i) + " is not the concatenation (length " + std::to_string(s->len) + ", want " + std::to_string(m.size()) + ")");
    }
    x.state("b" + m); x.outcome("b" + std::to_string(m.size()));
    char *p = bc_string_free(s, false);
    if (!p || memcmp(p, m.data(), m.size() + 1)) x.fail("released buffer differs");
    free(p);
}
// ---- string functions ----
static std::string sh_unquote(const std::string &q, bool &ok) {   // one POSIX shell word
    std::string r; bool in = false; ok = true;
    for (size_t i = 0; i < q.size(); i++) {
        if (in) { if (q[i] == '\'') in = false; else r += q[i]; }
        else if (q[i] == '\'') in = true;
        else if (q[i] == '\\' && i + 1 < q.size()) r += q[++i];
        else { ok = false; return r; }
    }
    if (in) ok = false;
    return r;
}
static bool sp(char c) { return c && strchr(" \f\n\r\t\v", c); }
static void strs(const std::string &s, Ctx &x) {
    x.trans(); x.state("f" + s);
    std::string l = s, r = s; while (!l.empty() && sp(l[0])) l.erase(0, 1); while (!r.empty() && sp(r.back())) r.pop_back();
    std::string b = l; while (!b.empty() && sp(b.back())) b.pop_back();
    { mc::Buf c(s); x.eq("lstrip", bc_str_lstrip(c.p), l); } { mc::Buf c(s); x.eq("rstrip", bc_str_rstrip(c.p), r); } { mc::Buf c(s); x.eq("strip", bc_str_strip(c.p), b); }
    mc::Buf c(s);
    for (char sep : {',', 'a', '\\'}) for (size_t max = 0; max <= 4; max++) {
        SV w; if (!s.empty()) { w.emplace_back(); for (char q : s) if (q == sep && (!max || w.size() < max)) w.emplace_back(); else w.back() += q; }
        char **v = bc_str_split(c.p, sep, max); SV g; for (char **q = v; *q; q++) g.push_back(*q);
        if (g != w) x.fail("split at '" + std::string(1, sep) + "' max " + std::to_string(max) + ": " + mc::show(mc::join(g)) + " want " + mc::show(mc::join(w)));
        if (bc_strv_length(v) != w.size()) x.fail("strv length");
        char sb[2] = {sep, 0}; char *j = bc_strv_join(v, sb); x.eq("join of split", j, s); free(j); bc_strv_free(v);
    }
    for (const char *rep : {"", "-", "aa", ","}) { std::string w; for (char q : s) if (q == 'a') w += rep; else w += q; char *g = bc_str_replace(c.p, 'a', rep); x.eq(std::string("replace a by ") + rep, g ? g : "(null)", w); free(g); }
    for (char q : {'a', ',', '\'', '\0'}) {
        long w = -1; if (q == 0) w = s.size(); else for (size_t i = 0; i < s.size(); i++) { if (s[i] == '\\') { i++; continue; } if (s[i] == q) { w = i; break; } }
        char *g = bc_str_find(c.p, q); long gl = g ? g - c.p : -1;
        if (gl != w) x.fail("find: " + std::to_string(gl) + " want " + std::to_string(w));
    }
    for (const std::string &p : {"", "a", ",a", "a\\", "aa", "!"}) {
        if (bc_str_starts_with(c.p, p.c_str()) != (s.compare(0, p.size(), p) == 0 && s.size() >= p.size())) x.fail("starts with " + p);
        if (bc_str_ends_with(c.p, p.c_str()) != (s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0)) x.fail("ends with " + p);
    }
    char *q = bc_shell_quote(c.p); bool ok; std::string u = sh_unquote(q, ok); if (!ok || u != s) x.fail(std::string("shell quoting is not one word with the same text: ") + q); x.outcome(q); free(q);
    std::string e; bool esc = false; for (char k : s) { if (k == '\\' && !esc) { esc = true; continue; } esc = false; e += k; }
    bc_string_t *bs = bc_string_append_escaped(bc_string_new(), c.p); x.eq("unescape", std::string(bs->str, bs->len), e); bc_string_free(bs, true);
    for (size_t n = 0; n <= s.size() + 1; n++) { char *d = bc_strndup(c.p, n); x.eq("strndup", d, s.substr(0, n)); free(d); }
    char *d = bc_strdup_printf("<%s>%%", c.p); x.eq("printf", d, "<" + s + ">%"); free(d); d = bc_strdup(c.p); x.eq("strdup", d, s); free(d);
    std::string lo; for (char k : s) lo += tolower((unsigned char) k);
    bool t = s == "1" || lo == "y" || lo == "yes" || lo == "true" || lo == "on";
    if (bc_str_to_bool(c.p) != t) x.fail("to_bool of \"" + mc::show(s) + "\"");
}
static void run(const std::string &c, Ctx &x) {
    mc::Heap hp; long d;
    { std::string a = c.substr(1); switch (c[0]) { case 't': trie(a, x); break; case 'l': slist(a, x); break; case 's': sort_(a, x); break; case 'b': sbuf(a, x); break; case 'f': strs(a, x); break; } }
}
static SV letters(int n) { SV v; for (int i = 0; i < n; i++) v.push_back(std::string(1, '0' + i)); return v; }
static void enumerate(Emit &e, const Options &o) {
    bool th = o.tier == "thorough";
    mc::words(e, letters(KEYS.size() * 2), 0, th ? 5 : 4, "t"); e.mark("map histories");
    mc::words(e, {"2", "4", "6", "8", ":"}, 5, th ? 8 : 6, "t"); e.mark("map histories, fewer keys");
    mc::words(e, letters(11), 0, th ? 6 : 5, "l"); e.mark("list histories");
    mc::words(e, letters(3), 0, th ? 10 : 8, "s"); mc::words(e, letters(6), 0, th ? 7 : 5, "s"); e.mark("sorts");
    mc::words(e, letters(15), 0, th ? 5 : 4, "b"); e.mark("buffer histories");
    mc::words(e, {" ", "\t", "a", "\\", "'", "!", ",", "\n"}, 0, th ? 7 : 5, "f"); mc::words(e, {" ", "\f", "\v", "\r", "b"}, 0, 5, "f"); e.mark("strings");
    mc::words(e, {"1", "y", "e", "s", "t", "r", "u", "o", "n", "Y", "S", "0"}, 0, th ? 5 : 4, "f"); e.mark("booleans");
}
int main(int argc, char **argv) { return mc::main_(argc, argv, {enumerate, run}); }
