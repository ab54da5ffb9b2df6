// Template trees, their printed form, and the reference meaning (blogc-template(7)).
#pragma once
#include "mc.hpp"
#include "dateref.hpp"
#include <memory>
extern "C" {
#include "common/utils.h"
#include "common/error.h"
#include "blogc/template-parser.h"
#include "blogc/renderer.h"
}

namespace tr {
typedef std::map<std::string, std::string> Map;
struct Env {
    bool listing; Map global; std::vector<Map> sources; std::vector<std::pair<bool, Map>> entries;  // (given, vars)
};
struct Node {
    char kind;              // t text, v variable, d ifdef, n ifndef, c if, f foreach, b block
    std::string a, op, b;   // name / text / operand
    int ws = 0;             // bit0 '-' before opening, 1 after opening, 2/3 closing, 4/5 else
    bool has_else = false;
    std::vector<Node> body, els;
};
inline bool space(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' || c == '\v'; }

// The printed template as pieces; text pieces remember what whitespace control does to them.
struct Piece { bool text; std::string s; bool l, r; };
inline void flatten(const std::vector<Node> &f, std::vector<Piece> &out) {
    auto st = [&](const std::string &s, bool l, bool r) { out.push_back({false, std::string("{%") + (l ? "-" : "") + " " + s + " " + (r ? "-" : "") + "%}", l, r}); };
    for (auto &n : f) {
        switch (n.kind) {
            case 't': if (!out.empty() && out.back().text) out.back().s += n.a; else out.push_back({true, n.a, false, false}); break;
            case 'v': out.push_back({false, "{{ " + n.a + " }}", false, false}); break;
            case 'd': case 'n': case 'c':
                st(n.kind == 'd' ? "ifdef " + n.a : n.kind == 'n' ? "ifndef " + n.a : "if " + n.a + " " + n.op + " " + n.b, n.ws & 1, n.ws & 2);
                flatten(n.body, out);
                if (n.has_else) { st("else", n.ws & 16, n.ws & 32); flatten(n.els, out); }
                st("endif", n.ws & 4, n.ws & 8); break;
            case 'f': st("foreach " + n.a, n.ws & 1, n.ws & 2); flatten(n.body, out); st("endforeach", n.ws & 4, n.ws & 8); break;
            case 'b': st("block " + n.a, n.ws & 1, n.ws & 2); flatten(n.body, out); st("endblock", n.ws & 4, n.ws & 8); break;
        }
    }
}
inline std::string print(const std::vector<Node> &f) { std::vector<Piece> p; flatten(f, p); std::string r; for (auto &x : p) r += x.s; return r; }
// apply whitespace control: text directly before "{%-" loses trailing, directly after "-%}" leading whitespace.
// Rewrites the text nodes of the tree (in document order, adjacent texts already merged by the generator).
inline void collect(std::vector<Node> &f, std::vector<Node*> &texts, std::vector<std::array<bool, 2>> &adj, bool &pend, Node *&last) {
    auto stmt = [&](bool l, bool r) { if (l && last) adj.back()[1] = true; last = nullptr; pend = r; };
    for (auto &n : f) {
        switch (n.kind) {
            case 't': texts.push_back(&n); adj.push_back({pend, false}); pend = false; last = &n; break;
            case 'v': last = nullptr; pend = false; break;
            default:
                stmt(n.ws & 1, n.ws & 2); collect(n.body, texts, adj, pend, last);
                if (n.has_else) { stmt(n.ws & 16, n.ws & 32); collect(n.els, texts, adj, pend, last); }
                stmt(n.ws & 4, n.ws & 8);
        }
    }
}
inline void control(std::vector<Node> &f) {
    std::vector<Node*> t; std::vector<std::array<bool, 2>> adj; bool pend = false; Node *last = nullptr;
    collect(f, t, adj, pend, last);
    for (size_t i = 0; i < t.size(); i++) {
        std::string &s = t[i]->a;
        if (adj[i][0]) { size_t k = 0; while (k < s.size() && space(s[k])) k++; s = s.substr(k); }
        if (adj[i][1]) while (!s.empty() && space(s.back())) s.pop_back();
    }
}

struct Eval {
    const Env &e; std::string out; size_t entry = 0; uint64_t steps = 0; mc::Ctx *x = nullptr;
    // The project's own tests pin that, when a single entry is rendered, a block that belongs to listings leaves the
    // entry's variables visible to what follows it. With pinned set the evaluator does that, too; both are accepted.
    bool pinned = false; const Map *opened = nullptr;
    const Map *local = nullptr; bool in_each = false; std::string each_name, item;
    explicit Eval(const Env &env) : e(env) {}
    bool raw(const std::string &n, std::string &v) const {
        if (local) { auto i = local->find(n); if (i != local->end()) { v = i->second; return true; } }
        auto i = e.global.find(n); if (i != e.global.end()) { v = i->second; return true; }
        return false;
    }
    // what a name stands for when it carries no suffix
    bool base(const std::string &n, std::string &v) const {
        if (n == "FOREACH_ITEM" && in_each) { v = item; return true; }
        if (n == "FOREACH_VALUE" && in_each) {
            std::string k = each_name + "__" + item;
            for (auto &c : k) if (c >= 'a' && c <= 'z') c -= 32; else if (!(c >= '0' && c <= '9') && !(c >= 'A' && c <= 'Z')) c = '_';
            return raw(k, v);
        }
        return raw(n, v);
    }
    bool var(const std::string &n, std::string &v) const {
        if (raw(n, v)) return true;                       // an existing variable is never overridden by the suffix syntax
        if (n == "FOREACH_ITEM" || n == "FOREACH_VALUE") return base(n, v);
        std::string s = n; long trunc = -1;
        size_t k = s.size(); while (k > 0 && isdigit((unsigned char) s[k - 1])) k--;
        if (k < s.size() && k > 1 && s[k - 1] == '_') { trunc = s.size() - k > 9 ? 999999999 : atol(s.c_str() + k); s = s.substr(0, k - 1); }
        bool fmt = s.size() >= 10 && s.compare(s.size() - 10, 10, "_FORMATTED") == 0;
        if (fmt) s = s.substr(0, s.size() - 10);
        if (!base(s, v)) return false;
        if (fmt && n.compare(0, 5, "DATE_") == 0) {
            std::string f; dr::Date d;
            if (raw("DATE_FORMAT", f) && dr::parse(v, d) && !f.empty()) v = dr::format(d, f);
        }
        if (trunc > 0) {                                  // characters, not bytes
            size_t i = 0; for (; i < v.size(); i++) if ((v[i] & 0xc0) != 0x80 && trunc-- == 0) break;
            v = v.substr(0, i);
        }
        return true;
    }
    void run(const std::vector<Node> &f) {
        for (auto &n : f) {
            steps++;
            std::string v;
            switch (n.kind) {
                case 't': out += n.a; break;
                case 'v': if (var(n.a, v)) out += v; break;
                case 'd': case 'n': case 'c': {
                    bool def = var(n.a, v), take;
                    if (n.kind == 'd') take = def; else if (n.kind == 'n') take = !def;
                    else {
                        std::string w; bool def2;
                        if (n.b[0] == '"') { w = n.b.substr(1, n.b.size() - 2); def2 = true; } else def2 = var(n.b, w);
                        int c = v.compare(w);
                        take = def && def2 && (n.op == "==" ? c == 0 : n.op == "!=" ? c != 0 : n.op == "<" ? c < 0 : n.op == ">" ? c > 0 : n.op == "<=" ? c <= 0 : c >= 0);
                    }
                    if (take) run(n.body); else if (n.has_else) run(n.els);
                    break;
                }
                case 'f': {
                    if (!raw(n.a, v)) break;
                    std::vector<std::string> items(1);
                    for (char c : v) if (c == ' ') items.emplace_back(); else items.back() += c;
                    for (auto &it : items) { if (it.empty()) continue; in_each = true; each_name = n.a; item = it; run(n.body); }
                    in_each = false; each_name = item = "";
                    break;
                }
                case 'b': {
                    if (n.a == "entry") { if (!e.listing && !e.sources.empty()) { opened = local = &e.sources[0]; run(n.body); } }
                    else if (n.a == "listing") { if (e.listing) for (auto &s : e.sources) { local = &s; run(n.body); } }
                    else if (n.a == "listing_once") { if (e.listing) run(n.body); }
                    else if (n.a == "listing_empty") { if (e.listing && e.sources.empty()) run(n.body); }
                    else if (n.a == "listing_entry") {
                        size_t i = entry++;
                        if (e.listing && i < e.entries.size() && e.entries[i].first) { local = &e.entries[i].second; run(n.body); }
                    }
                    local = pinned && !e.listing && n.a != "entry" ? opened : nullptr;
                    break;
                }
            }
        }
    }
};

// ---- the real thing ----
struct CTrie {
    bc_trie_t *t;
    explicit CTrie(const Map &m) : t(bc_trie_new(free)) { for (auto &p : m) bc_trie_insert(t, p.first.c_str(), strdup(p.second.c_str())); }
    ~CTrie() { bc_trie_free(t); }
};
inline std::string want(const std::vector<Node> &f, const Env &e, const std::string &got, uint64_t &steps) {
    Eval a(e); a.run(f); steps += a.steps;
    if (a.out == got || e.listing) return a.out;
    Eval b(e); b.pinned = true; b.run(f);
    return b.out == got ? got : a.out;
}
struct CEnv {
    CTrie g; std::vector<std::unique_ptr<CTrie>> keep; bc_slist_t *src = nullptr, *ent = nullptr; bool listing;
    explicit CEnv(const Env &e) : g(e.global), listing(e.listing) {
        for (auto &s : e.sources) { keep.emplace_back(new CTrie(s)); src = bc_slist_append(src, keep.back()->t); }
        for (auto &s : e.entries) { if (s.first) { keep.emplace_back(new CTrie(s.second)); ent = bc_slist_append(ent, keep.back()->t); } else ent = bc_slist_append(ent, nullptr); }
    }
    ~CEnv() { bc_slist_free(src); bc_slist_free(ent); }
    std::string render(bc_slist_t *ast) const {
        char *r = blogc_render(ast, src, ent, g.t, listing);
        std::string out = r ? r : "";
        free(r);
        return out;
    }
};
inline std::string real_render(bc_slist_t *ast, const Env &e) { return CEnv(e).render(ast); }
inline bc_slist_t *real_parse(const std::string &t, std::string &err) {
    mc::Buf b(t); bc_error_t *e = nullptr;
    bc_slist_t *ast = blogc_template_parse(b.p, b.n, &e);
    if (e) { err = e->msg ? e->msg : "(null)"; bc_error_free(e); } else err.clear();
    return ast;
}
}  // namespace tr
