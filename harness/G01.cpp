// The command parser of the login shell: every word over the significant bytes, against a reference reading of the quoting.
#include "mc.hpp"
extern "C" {
#include "blogc-git-receiver/shell-command-parser.h"
}
using mc::Ctx; using mc::Emit; using mc::Options;
static const std::vector<std::string> services = {"git-receive-pack", "git-upload-pack", "git-upload-archive"};

// The name of a command that is a service, one space, and one word of '...' pieces and \' \! escapes, closed properly.
static bool reference(const std::string &c, std::string &name) {
    size_t sp = c.find(' ');
    if (sp == std::string::npos) return false;
    bool known = false;
    for (auto &s : services) known |= c.compare(0, sp, s) == 0;
    if (!known) return false;
    name.clear();
    size_t i = sp + 1;
    while (i < c.size()) {
        if (c[i] == '\\') { if (i + 1 >= c.size() || c[i + 1] != '\'' && c[i + 1] != '!') return false; name += c[i + 1]; i += 2; continue; }
        if (c[i] != '\'') return false;
        size_t j = c.find('\'', i + 1);
        if (j == std::string::npos) return false;
        name += c.substr(i + 1, j - i - 1); i = j + 1;
    }
    return true;
}
// the components of the path; false if it is not something below the repository directory
static bool below(const std::string &n, std::vector<std::string> &out) {
    out.clear();
    size_t i = 0;
    while (i <= n.size()) {
        size_t j = n.find('/', i); if (j == std::string::npos) j = n.size();
        std::string p = n.substr(i, j - i);
        if (p == "..") return false;
        if (!p.empty() && p != ".") out.push_back(p);
        i = j + 1;
    }
    return !out.empty();
}
static void run(const std::string &c, Ctx &x) {
    mc::Buf b(c);
    static char copy[16384];
    mc::Heap hp;
    char *r = bgr_shell_command_parse(b.p);
    bool acc = r != nullptr;
    snprintf(copy, sizeof copy, "%s", r ? r : "");
    free(r);
    long leaked = hp.diff();
    std::string name, got = copy;
    std::vector<std::string> want, is;
    bool ok = reference(c, name) && below(name, want);
    x.trans(c.size()); x.state(ok ? name : "refused"); x.outcome(acc ? got : "refused"); x.count(ok ? "accepted" : "refused");
    if (acc && !ok) x.fail("accepted \"" + mc::show(c) + "\" as \"" + mc::show(got) + "\"");
    else if (!acc && ok) x.fail("refused \"" + mc::show(c) + "\", which names \"" + mc::show(name) + "\"");
    else if (acc && (!below(got, is) || is != want)) x.fail("\"" + mc::show(c) + "\" names \"" + mc::show(name) + "\", not \"" + mc::show(got) + "\"");
    if (leaked != 0) x.fail("leaks memory on \"" + mc::show(c) + "\"");
}
static std::string quote(const std::string &n, int style) {
    std::string q = "'";
    for (char ch : n) if (ch == '\'' || ch == '!' && style) q += std::string("'\\") + ch + "'"; else q += ch;
    return q + "'";
}
static void enumerate(Emit &e, const Options &o) {
    bool th = o.tier == "thorough";
    auto words = [&](const std::vector<std::string> &al, size_t max, auto f) {
        mc::each_word(al.size(), 0, max, [&](const std::vector<size_t> &ix) { if (!e.stop) e.lazy([&] { std::string w; for (size_t k : ix) w += al[k]; return f(w); }); });
    };
    for (auto &s : services) {
        words({"'", "\\", "a", "/", ".", "!", " "}, th ? 8 : 6, [&](const std::string &w) { return s + " " + w; });
        words({"'", "\\'", "'\\''", "'\\!'", "..", "/", "a.git"}, th ? 7 : 5, [&](const std::string &w) { return s + " " + w; });
        words({"a", "/", ".", "..", "'", "!", "$(x)", "`x`", ";x", "\n", "\"", "~", "-", "\xff", "a b"}, th ? 5 : 4, [&](const std::string &w) { return s + " " + quote(w, 1); });
        words({"a", "/", "..", ".", "'", "!"}, th ? 8 : 6, [&](const std::string &w) { return s + " " + quote(w, 0); });
    }
    e.mark("names");
    // the service: every edit of the three names
    for (auto &s : services) {
        for (const std::string &tail : {" 'a'", "'a'", "  'a'", "\t'a'", "", " "}) e.lazy([&] { return s + tail; });
        for (size_t i = 0; i <= s.size(); i++) for (int ch = 1; ch < 256; ch++) { if (e.stop) return;
            std::string ins = s, sub = s; ins.insert(i, 1, (char) ch); if (i < s.size()) sub[i] = ch;
            e.lazy([&] { return ins + " 'a'"; }); e.lazy([&] { return sub + " 'a'"; });
        }
        for (size_t i = 0; i < s.size(); i++) { std::string d = s; d.erase(i, 1); e.lazy([&] { return d + " 'a'"; }); e.lazy([&] { return s.substr(0, i) + " 'a'"; }); e.lazy([&] { return s.substr(i) + " 'a'"; }); e.lazy([&] { return s.substr(0, i) + " " + s.substr(i) + " 'a'"; }); }
    }
    words({"git-", "receive-pack", "upload-", "pack", "archive", " ", "-", "'a'"}, th ? 6 : 5, [&](const std::string &w) { return w; });
    for (int c = 1; c < 256; c++) for (int k = 0; k < 6; k++) { std::string b(1, (char) c); const char *pre[] = {"'", "'a", "'a'", "", "'a'\\", "'/"}; const char *post[] = {"'", "b'", "", "'a'", "'b'", "'"}; e.lazy([&] { return services[0] + " " + pre[k] + b + post[k]; }); }
    for (int n : {126, 127, 128, 129, 254, 255, 256, 257, 4090, 4096, 9000}) e.lazy([&] { return services[0] + " '" + std::string(n, 'a') + "'"; });
    e.mark("services");
}
int main(int argc, char **argv) { return mc::main_(argc, argv, {enumerate, run}); }
