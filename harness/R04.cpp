// URL decoding, extensions and content types on all short strings, compared with independent readings of the contract.
#include "mc.hpp"
#include "mime_ref.hpp"
extern "C" {
#include "common/utils.h"
#include "blogc-runserver/httpd-utils.h"
#include "blogc-runserver/mime.h"
}
using mc::Ctx; using mc::Emit; using mc::Options;
typedef std::vector<std::string> SV;
static int hv(char c) { static const std::string d = "0123456789abcdef"; size_t p = d.find((char) (c >= 'A' && c <= 'F' ? c + 32 : c)); return c && p != std::string::npos ? (int) p : -1; }
static void decode(const std::string &s, Ctx &x) {
    std::string w;
    for (size_t i = 0; i < s.size();) {
        if (s[i] == '%' && i + 2 < s.size() && hv(s[i + 1]) >= 0 && hv(s[i + 2]) >= 0) { w += (char) (hv(s[i + 1]) * 16 + hv(s[i + 2])); i += 3; }
        else { w += s[i] == '+' ? ' ' : s[i]; i++; }
    }
    mc::Heap hp; mc::Buf b(s);
    char *r = br_urldecode(b.p);
    if (!r) { x.fail("no result"); return; }
    if (memcmp(r, w.data(), w.size() + 1)) x.fail("decoded \"" + mc::show(s) + "\" as \"" + mc::show(r) + "\" instead of \"" + mc::show(w) + "\"");
    free(r); x.state("d" + w); x.outcome("d" + w); x.trans();
}
static std::string ref_ext(const std::string &s, bool &has) {
    size_t sep = s.find_last_of("/\\"), dot = s.rfind('.'); has = false;
    if (dot == std::string::npos || dot == 0 || (sep != std::string::npos && sep > dot && sep != 0)) return "";
    has = true; return s.substr(dot + 1);
}
static void ext(const std::string &s, Ctx &x) {
    bool has; std::string w = ref_ext(s, has);
    mc::Buf b(s); const char *r = br_get_extension(b.p); x.trans();
    if ((r != nullptr) != has || (r && w != r)) x.fail("extension of \"" + mc::show(s) + "\": " + (r ? "\"" + mc::show(r) + "\"" : "none") + " want " + (has ? "\"" + mc::show(w) + "\"" : "none"));
    std::string t = "application/octet-stream";
    if (has) for (auto &m : MIME) if (w == m.ext) t = m.type;
    const char *g = br_mime_guess_content_type(b.p);
    if (!g || t != g) x.fail("type of \"" + mc::show(s) + "\": " + (g ? g : "(none)") + " want " + t);
    x.state("e" + w + "|" + t); x.outcome("e" + std::string(has ? "1" : "0") + w + "|" + t);
}
static void run(const std::string &c, Ctx &x) { if (c[0] == 'd') decode(c.substr(1), x); else ext(c.substr(1), x); }
static void enumerate(Emit &e, const Options &o) {
    bool th = o.tier != "quick";
    mc::words(e, {"%", "4", "1", "g", "+", "F", "a", "/"}, 0, th ? 8 : 7, "d");
    mc::words(e, {"%2", "%", "e", "2F", "+", "%%", "%0", "x", "\xc3"}, 0, th ? 7 : 6, "d");
    for (int a = 1; a < 256; a++) for (int b = 1; b < 256; b++) for (const char *pre : {"", "a", "%"}) for (const char *post : {"", "b", "4"}) e.lazy([&] { return std::string("d") + pre + "%" + (char) a + (char) b + post; });
    for (int a = 1; a < 256; a++) { e(std::string("d") + (char) a); e(std::string("d") + (char) a + "%41" + (char) a); }
    for (int a = 1; a < 256; a++) for (int b = 1; b < 256; b++) e.lazy([&] { return std::string("e") + (char) a + "." + (char) b; });
    mc::words(e, {".", "/", "\\", "a", "html", "B"}, 0, th ? 8 : 7, "e");
    mc::words(e, {".", "txt", "/", "css", "index", "7", "z", " "}, 0, th ? 7 : 6, "e");
    SV all; for (auto &m : MIME) all.push_back(m.ext);
    for (auto &m : all) {
        std::set<std::string> v{m};
        for (size_t i = 0; i <= m.size(); i++) {
            v.insert(m.substr(0, i)); v.insert(m.substr(i));
            for (int b = 1; b < 256; b++) { std::string t = m; t.insert(i, 1, (char) b); v.insert(t); if (i < m.size()) { t = m; t[i] = (char) b; v.insert(t); } }
            if (i < m.size()) { std::string t = m; t.erase(i, 1); v.insert(t); }
        }
        std::string up = m; for (auto &ch : up) ch = toupper(ch); v.insert(up);
        for (auto &t : v) for (const char *pre : {"a.", "/x/y.z/a.", "a.html.", "/.", "."}) e("e" + std::string(pre) + t);
        for (auto &n : all) e("ea." + m + "." + n), e("e/" + m + "." + n + "/f"), e("e/d." + n + "/f." + m);
    }
}
int main(int c, char **v) { mc::Harness h; h.run = run; h.enumerate = enumerate; return mc::main_(c, v, h); }
