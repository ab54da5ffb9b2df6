#include <array>
#include "tmplref.hpp"
using namespace tr;
using mc::Ctx; using mc::Emit; using mc::Options;

static std::vector<Env> envs; static std::vector<std::unique_ptr<CEnv>> cenvs;
static const char *BLK[] = {"entry", "listing", "listing_once", "listing_empty", "listing_entry"};

static Map src(int i) {
    std::string k = std::to_string(i);
    Map m{{"L", "s" + k}, {"B", "b" + k}, {"M", "m" + k + " n" + k}, {"LS__P", "v" + k}};
    if (i & 1) m["O"] = "o" + k;
    if (i == 2) m["M"] = " " ;          // a list without items
    return m;
}
static Map ent(int i) { std::string k = std::to_string(i); return Map{{"L", "e" + k}, {"B", "be" + k}, {"O", "eo" + k}, {"M", "w"}}; }
static void init() {
    Map g{{"G", "g"}, {"B", "gb"}, {"LS", "p  q-1"}, {"LS__Q_1", "Q1"}, {"E", ""}, {"S1", "s1"}};
    auto add = [&](bool l, int ns, std::vector<int> es) {
        Env e; e.listing = l; e.global = g;
        for (int i = 1; i <= ns; i++) e.sources.push_back(src(i));
        for (int i : es) e.entries.push_back({i != 0, i ? ent(i) : Map()});
        envs.push_back(e); cenvs.emplace_back(new CEnv(e));
    };
    add(false, 1, {});
    add(true, 0, {1});
    add(true, 1, {0, 2});
    add(true, 2, {1, 2});
    add(true, 3, {});
}

// compact tree notation: see decode()
static const std::map<char, std::string> NAMES{{'L', "L"}, {'B', "B"}, {'G', "G"}, {'U', "U"}, {'O', "O"}, {'I', "FOREACH_ITEM"}, {'V', "FOREACH_VALUE"}, {'S', "LS"}, {'M', "M"}, {'E', "E"}, {'1', "S1"}};
static const char *OPS[] = {"==", "!=", "<", ">", "<=", ">="};
static const std::vector<std::string> TEXTS{" ", "x", " x\n", "\n\t{\r", "} %}\f", "\v-x{ y-"};

static size_t pos; static int letter;
static std::vector<Node> decode(const std::string &s) {
    std::vector<Node> f;
    while (pos < s.size() && s[pos] != ')' && s[pos] != '|') {
        Node n; char k = s[pos++];
        n.kind = k;
        if (k == 't') { n.a = std::string(1, 'a' + (letter++ % 26)); n.kind = 't'; }
        else if (k == 'w') { n.kind = 't'; n.a = TEXTS[s[pos++] - '0']; }
        else if (k == 'v') n.a = NAMES.at(s[pos++]);
        else {
            if (k == 'b') n.a = BLK[s[pos++] - '0']; else n.a = NAMES.at(s[pos++]);
            if (k == 'c') { n.op = OPS[s[pos++] - '0']; char b = s[pos++]; n.b = b == 's' ? "\"s1\"" : b == 'e' ? "\"\"" : b == 'p' ? "\"p\"" : NAMES.at(b); }
            if (s[pos] == '#') { n.ws = (unsigned char) s[pos + 1] - '0'; pos += 2; }
            pos++;  // (
            n.body = decode(s);
            if (s[pos] == '|') { pos++; n.has_else = true; n.els = decode(s); }
            pos++;  // )
        }
        if (n.kind == 't' && !f.empty() && f.back().kind == 't') f.back().a += n.a; else f.push_back(n);
    }
    return f;
}

static void run(const std::string &c, Ctx &x) {
    pos = 0; letter = 0;
    std::vector<Node> f = decode(c);
    std::string text = print(f);
    control(f);
    std::string err;
    bc_slist_t *ast = real_parse(text, err);
    if (!err.empty()) { x.fail("well-formed template rejected: \"" + mc::show(text) + "\": " + mc::show(err)); blogc_template_free_ast(ast); return; }
    if (x.replaying) printf("template: %s\n", mc::show(text, 4000).c_str());
    std::string all;
    for (size_t i = 0; i < envs.size(); i++) {
        std::string got = ast ? cenvs[i]->render(ast) : "";
        uint64_t steps = 0; std::string exp = want(f, envs[i], got, steps);
        x.trans(steps); x.validated++;
        x.state(exp + char('0' + i));
        all += got; all += '\x01';
        if (!x.eq("template \"" + mc::show(text) + "\" environment " + std::to_string(i) + " (listing=" + std::to_string(envs[i].listing) + ", sources=" + std::to_string(envs[i].sources.size()) + ")", got, exp)) break;
    }
    x.outcome(all);
    blogc_template_free_ast(ast);
}

struct Gen {
    Emit &e; std::vector<std::string> leaves, conds, lists, blocks; std::vector<char> wsflags{0}; std::string cur;
    typedef std::function<void(int)> K;
    bool textlast() const { return !cur.empty() && (cur.back() == 't' || (cur.size() > 1 && cur[cur.size() - 2] == 'w')); }
    void forest(int budget, bool inb, bool inf, const K &k) {
        k(budget);
        if (budget == 0 || e.stop) return;
        size_t l = cur.size();
        bool tl = textlast();
        for (auto &s : leaves) { if (tl && (s[0] == 't' || s[0] == 'w')) continue; cur += s; forest(budget - 1, inb, inf, k); cur.resize(l); }
        auto comp = [&](const std::string &h, bool el, bool nb, bool nf) {
            for (char w : wsflags) {
                cur += h; if (w) { cur += '#'; cur += (char) ('0' + w); } cur += '(';
                forest(budget - 1, nb, nf, [&](int rem) {
                    size_t m = cur.size();
                    cur += ')'; forest(rem, inb, inf, k); cur.resize(m);
                    if (el) {
                        cur += '|';
                        forest(rem, nb, nf, [&](int rem2) { size_t q = cur.size(); cur += ')'; forest(rem2, inb, inf, k); cur.resize(q); });
                        cur.resize(m);
                    }
                });
                cur.resize(l);
            }
        };
        for (auto &s : conds) comp(s, true, inb, inf);
        if (!inf) for (auto &s : lists) comp(s, false, inb, true);
        if (!inb) for (auto &s : blocks) comp(s, false, true, inf);
    }
    void go(int n) { forest(n, false, false, [&](int rem) { if (rem == 0 && e.want()) e.exec(cur); }); }
};

static void enumerate(Emit &e, const Options &o) {
    bool th = o.tier == "thorough";
    auto all = [&](Gen &&g, int n) { for (int i = 0; i <= n; i++) { g.go(i); char b[20]; sprintf(b, "%d", i); e.mark(b); } };
    // control flow: blocks, iterators, conditionals and variable scope
    all(Gen{e, {"t", "vL", "vI"}, {"dL", "dI"}, {"fS", "fM"}, {"b0", "b1", "b2", "b3", "b4"}}, th ? 5 : 4);
    // deeper nesting of conditionals
    all(Gen{e, {"t", "vB"}, {"dL", "nO"}, {"fM"}, {"b1", "b4"}}, th ? 5 : 4);
    all(Gen{e, {"t"}, {"dG", "dU"}, {}, {}}, th ? 6 : 5);
    all(Gen{e, {"t"}, {"dO"}, {"fS"}, {"b1"}}, th ? 6 : 5);
    // names and scopes
    all(Gen{e, {"t", "vL", "vB", "vG", "vU", "vO", "vI", "vV", "vE", "vS"}, {"dV", "dE", "nU"}, {"fS", "fM", "fU", "fE"}, {"b0", "b1", "b4"}}, th ? 4 : 3);
    // comparisons: every operator on every pair of operands, in every scope, alone and nested in pairs
    std::vector<std::string> cmp;
    for (const char *a : {"L", "G", "U", "E", "I", "1"}) for (int k = 0; k < 6; k++) for (const char *b : {"s", "e", "p", "L", "1", "U", "I", "E"}) cmp.push_back(std::string("c") + a + (char) ('0' + k) + b);
    for (const char *sc : {"", "fS(", "b0(", "b1(", "b1(fM(", "fS(b1("}) {
        std::string s = sc, close; for (char c : s) if (c == '(') close += ')';
        for (auto &c : cmp) {
            e(s + c + "(t)" + close); e(s + c + "(t|t)t" + close);
            for (auto &d : cmp) if (th || !*sc || s == "b1(" ) e(s + c + "(t" + d + "(t|t)t|t" + d + "(t)t)" + close);
        }
    }
    e.mark("cmp");
    // whitespace control on every statement
    std::vector<char> ws; for (int i = 0; i < 64; i++) ws.push_back(i);
    std::vector<std::string> wl; for (size_t i = 0; i < TEXTS.size(); i++) wl.push_back(std::string("w") + (char) ('0' + i));
    wl.push_back("vG");
    all(Gen{e, wl, {"dG"}, {}, {}, ws}, th ? 3 : 2);
    all(Gen{e, {"w0", "w2", "w4", "vG"}, {"dG"}, {}, {}, {0, 6, 9, 18, 36, 63}}, th ? 4 : 3);
    std::vector<char> ws4; for (int i = 0; i < 16; i++) ws4.push_back(i);
    all(Gen{e, {"w0", "w2", "vG"}, {}, {"fS"}, {"b1"}, ws4}, th ? 4 : 3);
    all(Gen{e, {"w2", "w3", "w5", "vL"}, {"dU"}, {}, {"b0", "b2"}, {0, 6, 15, 9}}, th ? 4 : 3);
}
int main(int argc, char **argv) { return mc::main_(argc, argv, {enumerate, run, init}); }
