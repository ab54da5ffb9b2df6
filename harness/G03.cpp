// The reader of the pushed references: every list of up to N lines over the vocabulary, against a line-based reference.
#include "mc.hpp"
extern "C" {
#include "blogc-git-receiver/pre-receive-parser.h"
}
using mc::Ctx; using mc::Emit; using mc::Options;
static const std::vector<std::string> refs = {"refs/heads/master", "refs/heads/main", "refs/heads/foo", "refs/tags/master", "refs/heads/mast", "refs/heads/masters", "refs/heads/x/master", "refs/heads/refs/heads/main", "refs/head/main",
    "refs/heads/m", "refs/notes/main", "refs/heads/\xc3\xa9", "refs/heads/Main", "refs/remotes/heads/main", "refs/heads", "refs/heads/mai", "refs/headsx/main", "refs/heads/foo/bar"};
static std::string hash(size_t k, size_t n = 40) { std::string s; unsigned v = 2654435761u * (k + 1); for (size_t i = 0; i < n; i++) { s += "0123456789abcdef"[v >> 28]; v = v * 1664525u + 1013904223u; } return s; }

static void run(const std::string &c, Ctx &x) {
    std::map<std::string, std::string> want;
    for (size_t i = 0, j; (j = c.find('\n', i)) != std::string::npos; i = j + 1) {
        std::string l = c.substr(i, j - i); size_t a = l.find(' '), b = l.find(' ', a + 1);
        std::string r = l.substr(b + 1);
        if (r.compare(0, 11, "refs/heads/") == 0 && r.size() > 11) want[r.substr(11)] = l.substr(a + 1, b - a - 1);
    }
    static char copy[1 << 16]; static std::string keys;
    mc::Buf b(c);
    std::string got, exp;
    for (auto &k : want) exp += k.first + "=" + k.second + "\n";
    mc::Heap hp;
    bc_trie_t *t = bgr_pre_receive_parse(b.p, b.n);
    size_t n = 0;
    size_t size = t ? bc_trie_size(t) : 0;
    copy[0] = 0;
    for (auto &r : refs) for (size_t cut : {size_t(11), size_t(10), size_t(5), size_t(0)}) {
        if (r.size() <= cut) continue;
        const char *k = r.c_str() + cut;
        const char *v = (const char*) bc_trie_lookup(t, k);
        auto w = want.find(k);
        if ((v != nullptr) != (w != want.end()) || v && w->second != v) n += snprintf(copy + n, sizeof copy - n, " %s is \"%s\" instead of \"%s\"", k, v ? v : "(none)", w == want.end() ? "(none)" : w->second.c_str());
        if (n > 4000) break;
    }
    bc_trie_free(t);
    long leaked = hp.diff();
    x.trans(std::count(c.begin(), c.end(), '\n')); x.state(exp); x.outcome(exp);
    x.count(want.count("master") ? "master" : want.count("main") ? "main" : "none");
    if (n) x.fail("references \"" + mc::show(c) + "\":" + copy);
    if (size != want.size()) x.fail("references \"" + mc::show(c) + "\": " + std::to_string(size) + " branches instead of " + std::to_string(want.size()));
    if (leaked) x.fail("leaks memory on \"" + mc::show(c) + "\"");
}
static void enumerate(Emit &e, const Options &o) {
    bool th = o.tier == "thorough";
    auto lines = [&](size_t nref, size_t max, size_t hl) {
        mc::each_word(nref, 0, max, [&](const std::vector<size_t> &ix) {
            if (e.stop) return;
            for (size_t i = 0; i < ix.size(); i++) for (size_t j = 0; j < i; j++) if (ix[i] == ix[j]) return;   // git lists each reference once
            e.lazy([&] { std::string w; size_t k = 0; for (size_t i : ix) { w += hash(90 + k, hl) + " " + (k % 3 == 2 ? std::string(hl, '0') : hash(k, hl)) + " " + refs[i] + "\n"; k++; } return w; });
            // an incomplete last line is no update
            if (ix.size() && ix.size() < 3) for (size_t cut = 1; cut <= 40; cut++) e.lazy([&] { std::string w; size_t k = 0; for (size_t i : ix) { w += hash(90 + k, hl) + " " + hash(k, hl) + " " + refs[i] + "\n"; k++; } w.resize(w.size() - std::min(cut, w.size())); return w; });
        });
    };
    lines(refs.size(), th ? 4 : 3, 40);
    lines(8, th ? 6 : 5, 40);
    lines(6, th ? 5 : 4, 64);
    lines(6, 3, 1);
    lines(6, 3, 7);
    e.mark("lists");
    for (size_t len = 1; len < (th ? 6000u : 1500u); len++) for (size_t k = 0; k < 3; k++) { if (e.stop) return; e.lazy([&] { return hash(1) + " " + hash(2) + " refs/heads/" + std::string(len, 'a') + "\n" + hash(3) + " " + hash(4) + " " + refs[k] + "\n"; }); }
    e.mark("lengths");
}
int main(int argc, char **argv) { return mc::main_(argc, argv, {enumerate, run}); }
