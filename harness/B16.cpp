// The list of source files: exactly the lines that are neither empty nor comments, trimmed, in order.
#include "mc.hpp"
extern "C" {
#include "common/utils.h"
#include "blogc/filelist-parser.h"
}
using mc::Ctx; using mc::Emit; using mc::Options; typedef std::string S;
static bool blank(char c) { return c == ' ' || c == '\t' || c == '\f' || c == '\v'; }
static void run(const S &s, Ctx &x) {
    std::vector<S> want, got; bool open = false; size_t i = 0;
    while (i <= s.size()) {
        size_t j = s.find_first_of("\r\n", i); if (j == S::npos) j = s.size();
        size_t a = i, b = j; while (a < b && (s[a] == ' ' || s[a] == '\t')) a++;
        bool odd = a < b && (s[a] == '\f' || s[a] == '\v');   // whether form feeds make a line empty or a comment is not documented
        while (a < b && blank(s[a])) a++; while (b > a && blank(s[b - 1])) b--;
        if (a == b) open |= odd; else if (s[a] == '#') open |= odd; if (a < b && s[a] != '#') want.push_back(s.substr(a, b - a));
        i = j + 1;
    }
    mc::Buf b(s); long leak; std::vector<S> tmp; tmp.reserve(s.size() + 2);
    { mc::Heap h; bc_slist_t *l = blogc_filelist_parse(b.p, b.n); size_t k = 0; static char st[1 << 16]; char *o = st; for (auto p = l; p; p = p->next) o = stpcpy(o, (char*) p->data) + 1, k++; bc_slist_free_full(l, free); leak = h.diff(); o = st; while (k--) { got.push_back(o); o += strlen(o) + 1; } }
    S d; for (auto &g : got) d += g + "|";
    x.trans(s.size()); x.state(d); x.outcome(d); x.count(open ? "unspecified" : "compared");
    if (leak) x.fail("memory not released for " + mc::show(s));
    if (!open && got != want) { S w; for (auto &g : want) w += g + "|"; x.fail("list " + mc::show(s) + " read as " + mc::show(d) + " instead of " + mc::show(w)); }
}
static void enumerate(Emit &e, const Options &o) {
    bool th = o.tier == "thorough";
    mc::words(e, {"a", "#", " ", "\t", "\n", "\r", ".", "\f"}, 0, th ? 9 : 7); e.mark("bytes");
    mc::words(e, {"a.txt", "b/c d.txt", "# x", "#", " ", "\t", "\n", "\r\n", "\r", "\v", "e#f"}, 0, th ? 7 : 5); e.mark("words");
    for (int c = 1; c < 256; c++) for (const char *p : {"", "a", " ", "#", "\n"}) for (const char *q : {"", "b", " ", "\n", "\nb"}) e(S(p) + (char) c + q); e.mark("bytes in context");
    for (size_t n = 0; n < (th ? 9000 : 2100); n++) { e(S(n, 'x')); e(S(n, ' ') + "y\n" + S(n, 'z') + "\nw"); e("#" + S(n, 'c') + "\nd"); } e.mark("lengths");
}
int main(int argc, char **argv) { return mc::main_(argc, argv, {enumerate, run}); }
