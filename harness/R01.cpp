// Containment: no answer ever has the content of a file outside of the document root.
#include "runsrv.hpp"
using namespace rs;
// case: kind \x1f docroot \x1f layout \x1f target
static const SV DEST{"", "in.txt", "dir", ".", "..", "../site-private", "../site-private/x", "../sitex", "../secret.txt", "../outside", "../outside/back", "@/secret.txt", "@/site", "@/site-private", "../outside/hop", "gone", "x", "../sit", "dir/../../secret.txt"};
typedef std::vector<std::pair<std::string, std::string>> Files;
static Files sfiles, lfiles;   // path and content of every file
static void note(Files &v, const std::string &base, const std::vector<File> &fs) { v.clear(); for (auto &f : fs) if (f.kind == 0 && !f.v.empty()) v.emplace_back(base + "/" + f.path, f.v); }
static void layout(int a, int b, int c) {
    wipe(dir + "/L"); std::string base = dir + "/L"; mkdir(base.c_str(), 0755);
    std::vector<File> f = {{"site", 1, ""}, {"site/in.txt", 0, "inside"}, {"site/dir", 1, ""}, {"site/dir/index.html", 0, "inside dir"}, {"site/dir/x", 0, "inside dir x"}, {"site-private", 1, ""}, {"site-private/x", 0, "SECRET-1"}, {"site-private/index.html", 0, "SECRET-2"}, {"site-private/in.txt", 0, "SECRET-3"}, {"sitex", 0, "SECRET-4"}, {"secret.txt", 0, "SECRET-5"}, {"outside", 1, ""}, {"outside/x", 0, "SECRET-6"}, {"outside/index.html", 0, "SECRET-7"}, {"outside/back", 2, "../site/dir"}, {"outside/hop", 2, "../secret.txt"}, {"index.html", 0, "SECRET-8"}, {"x", 0, "SECRET-9"}, {"sit", 1, ""}, {"sit/x", 0, "SECRET-A"}, {"sit/index.html", 0, "SECRET-B"}};
    if (a) f.push_back({"site/x", 2, DEST[a]});
    if (b) f.push_back({"site/index.html", 2, DEST[b]});
    if (c) f.push_back({"site/dir/l", 2, DEST[c]});
    put(base, f); note(lfiles, base, f);
}
static std::string cur_layout;
static void run(const std::string &cs, Ctx &x) {
    auto f = mc::fields(cs); std::string root = f[0], target = f[2];
    if (!f[1].empty() && f[1] != cur_layout) { int a, b, c; sscanf(f[1].c_str(), "%d,%d,%d", &a, &b, &c); layout(a, b, c); cur_layout = f[1]; }
    if (!f[1].empty()) root = dir + "/L/" + root; else if (root[0] == '@') root = dir + root.substr(1);
    size_t at; while ((at = target.find('@')) != std::string::npos) target.replace(at, 1, dir);
    Conn c; c.segs = {"GET " + target + " HTTP/1.1\r\nHost: x\r\n\r\n"};
    serve(c, root); x.trans(c.calls);
    int er; std::string rroot = real(root, er), body = c.reply.substr(std::min(c.reply.size(), c.reply.find("\r\n\r\n") + 4)), leak;
    if (!er && c.reply.find("\r\n\r\n") != std::string::npos) for (auto &p : f[1].empty() ? sfiles : lfiles) if (!inside(rroot, p.first) && (body == p.second || (p.second.compare(0, 6, "SECRET") == 0 && c.reply.find(p.second) != std::string::npos))) leak = p.first;
    if (!leak.empty()) x.fail("the answer to \"" + mc::show(target) + "\" with document root " + root + " has the content of " + leak + ", outside of it: \"" + mc::show(c.reply, 300) + "\"");
    Want w = resolve(root, target); x.count(w.kind);
    int e; x.state(f[1] + root + "|" + real(root + "/" + decode(target.substr(0, target.find('?'))).c_str(), e) + w.kind); x.outcome(c.reply.substr(0, 12) + w.kind + w.body.substr(0, 40) + w.loc);
}
static void enumerate(Emit &e, const Options &o) {
    bool th = o.tier != "quick"; const std::string F = "\x1f";
    SV roots{"@/site", "@/site/", "site", "link", "site/../site", "./site", "@/link/", "site/self"};
    SV tok{"/", "..", ".", "d", "a.txt", "out.txt", "outd", "oi", "site-private", "sitex", "secret.txt", "site", "%2e", "%2F", "%2e%2E", "up", "back", "x"};
    mc::words(e, tok, 1, th ? 5 : 4, "@/site" + F + F + "/");
    SV t2{"/", "..", ".", "d/", "site-private", "%2f", "%2e", "sit", "ex", "outd", "up"};
    mc::words(e, t2, 5, th ? 6 : 5, "@/site" + F + F + "/");
    for (auto &r : roots) { mc::words(e, tok, 1, 3, r + F + F); mc::words(e, t2, 4, th ? 5 : 4, r + F + F + "/"); }
    for (const char *r : {"@/site/d", "@/site/up", "@/sit", "site/ind", "site/outd/../site"}) mc::words(e, tok, 1, 3, std::string(r) + F + F + "/");
    // absolute paths, double encodings, NUL, backslashes
    SV t3{"@/", "secret.txt", "site-private/", "%00", "%252e%252e/", "\\", "..\\", "%5c", "../", "?", "+", "//", "%2", "..%00/", "a.txt", "..;/", "%c0%ae", "~", "http://h/"};
    mc::words(e, t3, 1, th ? 4 : 3, "@/site" + F + F + "/"); mc::words(e, t3, 1, 3, "site" + F + F);
    // depth: more ".." than the path has components
    for (int n = 1; n < 24; n++) for (const char *up : {"../", "%2e./", "..%2f", "d/../../", "./../", "..//"}) for (const char *t : {"secret.txt", "site-private/x", "etc/hostname", "sitex", "site/a.txt", ""}) { std::string s; for (int k = 0; k < n; k++) s += up; e("@/site" + F + F + "/" + s + t); e("@/site" + F + F + "/d/" + s + t); }
    // every layout of three links
    SV req{"/", "/x", "/x/", "/x/x", "/x/index.html", "/index.html", "/x/in.txt", "/index.html/x", "/dir/l", "/dir/l/", "/dir/l/x", "/dir/l/secret.txt", "/x/../secret.txt", "/x/site-private/x", "/x/x/x", "/../site-private/x", "/x/l/x", "/dir/../x", "/x/sitex", "/dir"};
    for (size_t a = 0; a < DEST.size(); a++) for (size_t b = 0; b < DEST.size(); b++) for (size_t c = 0; c < DEST.size(); c++) {
        if (!th && a && b && c) continue;
        std::string l = std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(c);
        // one worker takes a whole layout
        std::vector<std::string> cs; for (auto &q : req) for (const char *r : {"site", "site/dir/.."}) cs.push_back(std::string(r) + F + l + F + q);
        if (e.want()) for (auto &q : cs) e.exec(q);
    }
}
int main(int c, char **v) { mc::Harness h; h.run = run; h.enumerate = enumerate; h.init = [] { init(); note(sfiles, dir, standard()); }; return mc::main_(c, v, h); }
