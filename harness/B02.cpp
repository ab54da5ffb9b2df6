#include "tmplref.hpp"
using namespace tr;
using mc::Ctx; using mc::Emit; using mc::Options;

static std::vector<Env> envs; static std::vector<std::unique_ptr<CEnv>> cenvs;
static void init() {
    Map g{{"A", "p q"}, {"B", "p"}, {"A__P", "V"}};
    for (int k = 0; k < 3; k++) {
        Env e; e.listing = k > 0; e.global = g;
        if (k != 1) e.sources.push_back(Map{{"B", "s1"}, {"L", "l"}});
        if (k == 2) e.sources.push_back(Map{{"B", "s2"}, {"A", "z"}});
        if (k == 2) e.entries.push_back({true, Map{{"B", "e"}}});
        envs.push_back(e); cenvs.emplace_back(new CEnv(e));
    }
}

// ---- acceptor written from blogc-template(7) ----
struct P {
    const std::string &s; size_t i = 0; bool dontcare = false; std::string why;
    explicit P(const std::string &t) : s(t) {}
    size_t ws() { size_t k = i; while (i < s.size() && space(s[i])) i++; return i - k; }
    bool name(std::string &n) {
        if (i >= s.size() || !(s[i] >= 'A' && s[i] <= 'Z')) return false;
        size_t k = i; while (i < s.size() && ((s[i] >= 'A' && s[i] <= 'Z') || (s[i] >= '0' && s[i] <= '9') || s[i] == '_')) i++;
        n = s.substr(k, i - k); return true;
    }
    bool word(std::string &n) {
        if (i >= s.size() || !(s[i] >= 'a' && s[i] <= 'z')) return false;
        size_t k = i; while (i < s.size() && ((s[i] >= 'a' && s[i] <= 'z') || s[i] == '_')) i++;
        n = s.substr(k, i - k); return true;
    }
    struct Open { char kind; bool els; Node *node; int ifs, each; };
    // flat list of statements, then nesting
    struct St { char k; std::string a, op, b; bool l, r; };
    bool lex(std::vector<St> &out) {
        auto text = [&](char c) { if (!out.empty() && out.back().k == 't') out.back().a += c; else out.push_back({'t', std::string(1, c), "", "", false, false}); };
        while (i < s.size()) {
            if (s[i] == '{' && i + 1 < s.size() && s[i + 1] == '{') {
                i += 2; St st{'v'}; ws(); if (!name(st.a)) return false; ws();
                if (s.compare(i, 2, "}}")) return false;
                i += 2; out.push_back(st); continue;
            }
            if (s[i] == '{' && i + 1 < s.size() && s[i + 1] == '%') {
                i += 2; St st{}; st.l = i < s.size() && s[i] == '-'; if (st.l) i++;
                ws(); std::string kw; size_t k = i;
                while (i < s.size() && s[i] >= 'a' && s[i] <= 'z') i++;
                kw = s.substr(k, i - k);
                if (kw.empty() || !ws()) return false;
                bool needws = false;
                if (kw == "else") st.k = 'e'; else if (kw == "endif") st.k = 'E'; else if (kw == "endblock") st.k = 'B'; else if (kw == "endforeach") st.k = 'F';
                else if (kw == "block") {
                    st.k = 'b'; if (!word(st.a) || !ws()) return false;
                    if (st.a != "entry" && st.a != "listing" && st.a != "listing_once" && st.a != "listing_empty" && st.a != "listing_entry") return false;
                } else if (kw == "ifdef" || kw == "ifndef" || kw == "foreach") {
                    st.k = kw == "ifdef" ? 'd' : kw == "ifndef" ? 'n' : 'f'; if (!name(st.a) || !ws()) return false;
                } else if (kw == "if") {
                    st.k = 'c'; if (!name(st.a) || !ws()) return false;
                    k = i; while (i < s.size() && !space(s[i])) i++;
                    st.op = s.substr(k, i - k);
                    if (st.op != "==" && st.op != "!=" && st.op != "<" && st.op != ">" && st.op != "<=" && st.op != ">=") return false;
                    if (!ws()) return false;
                    if (i < s.size() && s[i] == '"') {
                        size_t q = i + 1; while (q < s.size() && s[q] != '"') q++;
                        if (q >= s.size()) return false;
                        st.b = s.substr(i, q + 1 - i); i = q + 1; ws();
                    } else if (!name(st.b) || !ws()) return false;
                } else return false;
                st.r = i < s.size() && s[i] == '-'; if (st.r) i++;
                if (s.compare(i, 2, "%}")) return false;
                i += 2; out.push_back(st); continue;
            }
            text(s[i++]);
        }
        return true;
    }
    // 0 reject, 1 accept (tree in f), 2 unspecified (foreach and if interleaved, otherwise balanced)
    int parse(std::vector<Node> &f) {
        std::vector<St> st; if (!lex(st)) return 0;
        struct Fr { char k; bool els; };
        std::vector<Fr> stack; bool inter = false;
        // balance first, allowing an iterator and conditionals inside the same block to be interleaved
        for (auto &x : st) {
            auto has = [&](char k) { for (size_t j = stack.size(); j--;) { if (stack[j].k == k) return (int) j; if (stack[j].k == 'b') break; } return -1; };
            switch (x.k) {
                case 'd': case 'n': case 'c': stack.push_back({'i', false}); break;
                case 'f': for (auto &q : stack) if (q.k == 'f') return 0; stack.push_back({'f', false}); break;
                case 'b': for (auto &q : stack) if (q.k == 'b') return 0; stack.push_back({'b', false}); break;
                case 'e': { int j = has('i'); if (j < 0 || stack[j].els) return 0; stack[j].els = true; if (j != (int) stack.size() - 1) inter = true; break; }
                case 'E': { int j = has('i'); if (j < 0) return 0; if (j != (int) stack.size() - 1) inter = true; stack.erase(stack.begin() + j); break; }
                case 'F': { int j = has('f'); if (j < 0) return 0; if (j != (int) stack.size() - 1) inter = true; stack.erase(stack.begin() + j); break; }
                case 'B': { if (stack.empty()) return 0; if (stack.back().k != 'b') return 0; stack.pop_back(); break; }
            }
        }
        if (!stack.empty()) return 0;
        if (inter) return 2;
        size_t p = 0; build(st, p, f); return 1;
    }
    static void build(const std::vector<St> &st, size_t &p, std::vector<Node> &f) {
        while (p < st.size()) {
            auto &x = st[p];
            if (x.k == 'e' || x.k == 'E' || x.k == 'B' || x.k == 'F') return;
            p++;
            Node n; n.kind = x.k; n.a = x.a; n.op = x.op; n.b = x.b;
            if (x.k != 't' && x.k != 'v') {
                n.ws = (x.l ? 1 : 0) | (x.r ? 2 : 0);
                build(st, p, n.body);
                if (st[p].k == 'e') { n.has_else = true; n.ws |= (st[p].l ? 16 : 0) | (st[p].r ? 32 : 0); p++; build(st, p, n.els); }
                n.ws |= (st[p].l ? 4 : 0) | (st[p].r ? 8 : 0); p++;
            }
            f.push_back(n);
        }
    }
};

static void run(const std::string &t, Ctx &x) {
    std::vector<Node> f; P p(t); int want = p.parse(f);
    if (t.find("\\\"") != std::string::npos) want = 2;   // no escapes are documented
    std::string err; bc_slist_t *ast = real_parse(t, err);
    x.trans(t.size()); x.count(want == 0 ? "malformed" : want == 1 ? "wellformed" : "unspecified");
    err = err.substr(0, err.find('\n'));
    x.outcome(err.empty() ? "accepted" : err);
    if (want == 0 && err.empty()) x.fail("malformed template accepted: \"" + mc::show(t) + "\"");
    else if (want == 1 && !err.empty()) x.fail("well-formed template rejected: \"" + mc::show(t) + "\": " + mc::show(err));
    if (err.empty()) {
        if (want == 1) control(f);
        for (size_t i = 0; i < envs.size(); i++) {
            std::string got = ast ? cenvs[i]->render(ast) : "";    // must terminate without crashing in any case
            if (want == 1) { uint64_t steps = 0; std::string exp = tr::want(f, envs[i], got, steps); x.state(exp); if (!x.eq("template \"" + mc::show(t) + "\" environment " + std::to_string(i), got, exp)) break; }
        }
    } else x.state(err);
    blogc_template_free_ast(ast);
}

static void enumerate(Emit &e, const Options &o) {
    bool th = o.tier == "thorough";
    std::vector<std::string> st{"x", "{% ifdef B %}", "{% ifndef B %}", "{% else %}", "{% endif %}", "{% foreach A %}", "{% endforeach %}", "{% block listing %}", "{% endblock %}"};
    mc::words(e, st, 0, th ? 7 : 6); e.mark("statement words");
    std::vector<std::string> st2 = st; st2.insert(st2.end(), {"{{ B }}", "{% if B == \"s1\" %}", "{% block entry %}", "{% block listing_entry %}", "{% block listing_once %}", "{% block listing_empty %}", " {%- else -%} ", " {%- endif -%} ", "{"});
    mc::words(e, st2, 0, th ? 5 : 4); e.mark("statement words, larger alphabet");
    // truncation of every word at every byte
    mc::each_word(st2.size(), 1, th ? 4 : 3, [&](const std::vector<size_t> &ix) {
        if (e.stop) return;
        const std::string &last = st2[ix.back()];
        for (size_t cut = 1; cut < last.size(); cut++) e.lazy([&] { std::string s; for (size_t k = 0; k + 1 < ix.size(); k++) s += st2[ix[k]]; return s + last.substr(0, cut); });
    });
    e.mark("truncations");
    // token edits of complete statements
    std::vector<std::string> tok{"{%", "%}", "{{", "}}", "-", " ", "\n", "\t", "if", "ifdef", "else", "endif", "foreach", "block", "entry", "B", "A_1_", "b", "1", "_", "==", "!=", "<=", ">", "=", "=>", "\"s1\"", "\"", "{", "}", "%", "x", ":", "<", "\xc3\xa9"};
    std::vector<std::vector<std::string>> full{
        {"{{", " ", "B", " ", "}}"}, {"{{", "B", "}}"},
        {"{%", " ", "ifdef", " ", "B", " ", "%}", "x", "{%", " ", "endif", " ", "%}"},
        {"{%", "-", " ", "if", " ", "B", " ", "==", " ", "\"s1\"", " ", "-", "%}", "x", "{%", "endif", " ", "%}"},
        {"{%", " ", "if", " ", "B", " ", "<", " ", "A", " ", "%}", "x", "{%", "else", " ", "%}", "{%", "endif", " ", "%}"},
        {"{%", "foreach", " ", "A", " ", "-", "%}", " ", "x", " ", "{%", "-", "endforeach", " ", "%}"},
        {"{%", "block", " ", "entry", " ", "%}", "x", "{%", "endblock", " ", "%}"},
    };
    auto cat = [](const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += x; return s; };
    for (auto &f : full) {
        std::function<void(const std::vector<std::string>&, size_t, int)> edit = [&](const std::vector<std::string> &v, size_t from, int left) {
            if (e.stop) return;
            if (e.want()) e.exec(cat(v));
            if (!left) return;
            for (size_t p = from; p <= v.size(); p++) {
                if (p < v.size()) { auto w = v; w.erase(w.begin() + p); edit(w, p, left - 1); }
                for (auto &t : tok) {
                    auto w = v; w.insert(w.begin() + p, t); edit(w, p + 1, left - 1);
                    if (p < v.size()) { w = v; w[p] = t; edit(w, p + 1, left - 1); }
                }
            }
        };
        edit(f, 0, th || f.size() < 10 ? 2 : 1);
        if (f.size() < 6) edit(f, 0, th ? 3 : 2);
    }
    e.mark("edits");
    // every byte everywhere
    for (auto &f : full) {
        std::string t = cat(f);
        for (size_t p = 0; p <= t.size(); p++) for (int b = 1; b < 256; b++) {
            if (e.stop) break;
            if (p < t.size()) e.lazy([&] { std::string w = t; w[p] = b; return w; });
            e.lazy([&] { std::string w = t; w.insert(p, 1, (char) b); return w; });
        }
    }
    for (const char *t : {"{{ \1 }}", "{{\1}}", "{% ifdef \1 %}x{% endif %}", "{% ifndef \1 %}x{% endif %}", "{% if \1 == B %}x{% endif %}", "{% if B == \1 %}x{% endif %}", "{% if B == \"\1\" %}x{% endif %}", "{% if B < \"\1\" %}x{% endif %}", "{% if B >= \"\1\" %}x{% else %}y{% endif %}", "{% foreach \1 %}x{% endforeach %}", "{% block entr\1 %}x{% endblock %}"})
        for (int b = 1; b < 256; b++) for (int c : {'A', 'Z', 'a', 'y', 'z', '0', '9', '_', ' ', '"', '-'}) for (int o = 0; o < 2; o++)
            e.lazy([&] { std::string w = t; size_t k = w.find('\1'); w.replace(k, 1, o ? std::string{(char) b, (char) c} : std::string{(char) c, (char) b}); return w; });
    e.mark("every byte everywhere");
    // raw bytes
    mc::words(e, {"{", "%", "}", "-", " ", "B", "b", "\"", "=", "\n"}, 0, th ? 7 : 5); e.mark("bytes");
    mc::words(e, {"%}", "}}", "-", " ", "B", "x", "{", "{%", "\"", "==", "else", "endif"}, 0, th ? 5 : 4, "{% if B", ""); e.mark("if tails");
    mc::words(e, {"%}", "}}", "-", " ", "B", "x", "{", "{%", "{{", "}"}, 0, th ? 6 : 5, "{{", ""); e.mark("variable tails");
}
int main(int argc, char **argv) { return mc::main_(argc, argv, {enumerate, run, init}); }
