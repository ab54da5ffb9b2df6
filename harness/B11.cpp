// INI files: every file over a line vocabulary and every short byte string, against a reference reader.
#include "mc.hpp"
extern "C" {
#include "common/utils.h"
#include "common/error.h"
#include "common/config-parser.h"
}
using mc::Ctx; using mc::Emit; using mc::Options;
static const char *lists[] = {"l", "lst", nullptr};
static bool is_list(const std::string &n) { for (int i = 0; lists[i]; i++) if (n == lists[i]) return true; return false; }
struct Sec { bool list = false; std::map<std::string, std::string> m; std::vector<std::string> l; bool operator==(const Sec &o) const { return list == o.list && m == o.m && l == o.l; } };
typedef std::map<std::string, Sec> Conf;
static std::string show(const Conf &c) {
    std::string r; for (auto &p : c) { r += "[" + p.first + "]"; for (auto &q : p.second.m) r += q.first + "=<" + q.second + ">,"; for (auto &q : p.second.l) r += "<" + q + ">,"; } return mc::show(r);
}
static bool sp(char c) { return c == ' ' || c == '\t' || c == '\f' || c == '\v'; }
static bool nl(char c) { return c == '\n' || c == '\r'; }
static std::string trim(std::string s) { while (!s.empty() && (sp(s[0]) || nl(s[0]))) s.erase(0, 1); while (!s.empty() && (sp(s.back()) || nl(s.back()))) s.pop_back(); return s; }
struct Ref {
    Conf merged, replaced; bool error = false, open = false;   // open: the documentation does not settle this file
    void value(const std::string &s, size_t &i, std::string &v) {
        while (i < s.size() && sp(s[i])) i++;
        if (i < s.size() && s[i] == '"') {
            for (i++; ; i++) {
                if (i >= s.size()) { error = true; return; }
                if (s[i] == '\\') { if (++i >= s.size()) { error = true; return; } v += s[i]; continue; }
                if (s[i] == '"') { i++; break; }
                v += s[i];
            }
            while (i < s.size() && sp(s[i])) i++;
            if (i < s.size() && !nl(s[i])) error = true;
            return;
        }
        bool esc_space = false;
        while (i < s.size() && !nl(s[i])) {
            if (s[i] == '\\') { i++; if (i >= s.size() || nl(s[i])) { open = true; return; } if (sp(s[i])) esc_space = true; }
            v += s[i++];
        }
        if (esc_space && trim(v) != v) open = true;
        v = trim(v);
    }
    explicit Ref(const std::string &s) {
        std::string cur; bool have = false; size_t i = 0;
        while (!error && i < s.size()) {
            if (sp(s[i]) || nl(s[i])) { i++; continue; }
            if (s[i] == '#' || s[i] == ';') { while (i < s.size() && !nl(s[i])) i++; continue; }
            if (s[i] == '[') {
                size_t k = ++i; while (i < s.size() && s[i] != ']' && !nl(s[i])) i++;
                if (i >= s.size() || s[i] != ']') { error = true; return; }
                cur = s.substr(k, i - k); i++; have = true;
                if (cur.empty()) open = true;
                size_t e = i; while (e < s.size() && !nl(s[e])) { if (!sp(s[e])) open = true; e++; }   // something after the name
                merged[cur].list = is_list(cur); replaced[cur] = Sec(); replaced[cur].list = is_list(cur);
                continue;
            }
            if (!have) { error = true; return; }
            if (is_list(cur)) { std::string v; value(s, i, v); if (error) return; merged[cur].l.push_back(v); replaced[cur].l.push_back(v); continue; }
            size_t k = i; while (i < s.size() && s[i] != '=' && !nl(s[i])) i++;
            if (i >= s.size() || nl(s[i])) { error = true; return; }
            std::string key = trim(s.substr(k, i - k)), v; i++;
            if (key.empty()) open = true;
            value(s, i, v); if (error) return;
            merged[cur].m[key] = v; replaced[cur].m[key] = v;
        }
    }
};
static void run(const std::string &s, Ctx &x) {
    mc::Buf b(s); bc_error_t *err = nullptr;
    bc_config_t *c = bc_config_parse(b.p, b.n, lists, &err);
    std::string msg = err && err->msg ? err->msg : ""; bool e = err; bc_error_free(err);
    Conf got; bool consistent = true;
    if (c) {
        char **secs = bc_config_list_sections(c);
        for (char **p = secs; p && *p; p++) {
            Sec k; char **l = bc_config_get_list(c, *p), **keys = bc_config_list_keys(c, *p);
            if (l) { k.list = true; for (char **q = l; *q; q++) k.l.push_back(*q); }
            if (keys) for (char **q = keys; *q; q++) { const char *v = bc_config_get(c, *p, *q), *d = bc_config_get_with_default(c, *p, *q, "default"); if (!v || !d || strcmp(v, d)) consistent = false; else { if (k.m.count(*q)) consistent = false; k.m[*q] = v; } }
            if ((l != nullptr) == (keys != nullptr)) consistent = false;
            if (bc_config_get(c, *p, "zz-none") || strcmp(bc_config_get_with_default(c, *p, "zz-none", "D"), "D")) consistent = false;
            bc_strv_free(l); bc_strv_free(keys);
            if (got.count(*p)) consistent = false;
            got[*p] = k;
        }
        bc_strv_free(secs);
        bc_config_free(c);
    }
    Ref r(s); x.trans(s.size()); x.state(r.error ? "error" : show(r.merged)); x.outcome(e ? msg.substr(0, msg.find('\n')) : show(got)); x.count(r.open ? "unspecified" : r.error ? "malformed" : "wellformed");
    if (e != (c == nullptr)) { x.fail("result and error do not exclude each other"); return; }
    if (!consistent) { x.fail("the accessors disagree about the parsed file"); return; }
    if (r.open) return;
    if (r.error) { if (!e) x.fail("malformed file accepted as " + show(got)); else if (msg.empty()) x.fail("error without message"); return; }
    if (e) { x.fail("file rejected: " + msg + "; want " + show(r.merged)); return; }
    if (!(got == r.merged) && !(got == r.replaced)) x.fail("got " + show(got) + " want " + show(r.merged));
}
static void enumerate(Emit &e, const Options &o) {
    bool th = o.tier == "thorough";
    std::vector<std::string> lines{"[foo]", "[l]", "a = 1", "a=b = c", "  key\t=  v w  ", "a = \"q \\\" # ; = [x]  \"", "a = \\\"z\\\\y\\=", "b =", "# c = 1", "; [foo]", "", " \t", "item", "\" it \\\\ \"", "\"\"", "a = \"x\" y", "a = \"x", "[foo", "x = #1;2", "\\[x]", "\xc3\xa9 = \xe2\x82\xac"};
    for (const char *eol : {"\n", "\r", "\r\n"}) for (int term = 0; term < 2; term++)
        mc::each_word(lines.size(), 0, th ? 5 : 3, [&](const std::vector<size_t> &ix) { if (e.stop) return; e.lazy([&] { std::string s; for (size_t i = 0; i < ix.size(); i++) { s += lines[ix[i]]; if (i + 1 < ix.size() || term) s += eol; } return s; }); });
    e.mark("lines");
    for (const char *eol : {"\n", "\r", "\r\n"}) for (int term = 0; term < 2; term++) for (const char *sec : {"[foo]", "[l]", "[lst] "})
        mc::each_word(lines.size(), 0, th ? 4 : 3, [&](const std::vector<size_t> &ix) { if (e.stop) return; e.lazy([&] { std::string s = sec; for (size_t i = 0; i < ix.size(); i++) { s += eol; s += lines[ix[i]]; } if (term) s += eol; return s; }); });
    e.mark("lines in a section");
    // truncation of a full file at every byte, with every mixture of two line endings
    std::string full = "[foo]\nabc = def\nq = \"a b\" \n; c\n\n[l]\nitem one\n\"two \\\" x\"\n[z]\nk=\n";
    for (int a = 0; a < 3; a++) for (int c = 0; c < 3; c++) { std::string f; int n = 0; for (char ch : full) if (ch == '\n') f += (n++ % 2 ? c : a) == 0 ? "\n" : (n % 2 ? a : c) == 1 ? "\r" : "\r\n"; else f += ch; for (size_t k = 0; k <= f.size(); k++) e(f.substr(0, k)); }
    e.mark("truncations");
    for (const std::string &t : std::vector<std::string>{full, "[foo]\r\na = \"b\" \r\n# c\r\nk\t=  v\\\" w  \r\n"})
        for (size_t p = 0; p <= t.size(); p++) for (int b = 1; b < 256; b++) {
            if (e.stop) break;
            if (p < t.size()) e.lazy([&] { std::string w = t; w[p] = b; return w; });
            e.lazy([&] { std::string w = t; w.insert(p, 1, (char) b); return w; });
        }
    e.mark("every byte everywhere");
    std::vector<std::string> by{"a", "=", "\"", "\\", " ", "\n", "\r", "#", "[", "]"};
    mc::words(e, by, 0, th ? 7 : 5); mc::words(e, by, 0, th ? 7 : 5, "[s]\n"); mc::words(e, by, 0, th ? 7 : 5, "[l]\n"); e.mark("bytes");
    mc::words(e, {"a", "\"", "\\", " ", "\n"}, 0, th ? 9 : 7, "[s]\nk="); mc::words(e, {"a", "\"", "\\", " ", "\n"}, 0, th ? 9 : 7, "[l]\n"); mc::words(e, {"\f", "\v", "a", "\n", "\t"}, 0, 6, "[l]\n"); e.mark("values");
    // long values cross the buffer's growth steps
    for (int n = 100; n <= 400; n++) for (int q = 0; q < 2; q++) e.lazy([&] { std::string v(n, 'v'); for (int i = 0; i < n; i++) v[i] = 'a' + i % 26; return "[foo]\nk = " + (q ? "\"" + v + "\"" : v) + "\n[l]\n" + (q ? "\"" + v + "\"" : v); });
}
int main(int argc, char **argv) { return mc::main_(argc, argv, {enumerate, run}); }
