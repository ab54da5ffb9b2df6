// Input: UTF-8 acceptance and byte-exact delivery of files and of the standard input.
#include "mc.hpp"
extern "C" {
#include "common/utils.h"
#include "common/error.h"
#include "common/utf8.h"
#include "common/file.h"
#include "common/stdin.h"
#include "blogc/loader.h"
#include "blogc/renderer.h"
#include "blogc/template-parser.h"
}
using mc::Ctx; using mc::Emit; using mc::Options; typedef std::string S;
// Unicode, table 3-7: well-formed UTF-8 byte sequences
static bool wellformed(const unsigned char *s, size_t n) {
    for (size_t i = 0; i < n;) {
        unsigned char c = s[i]; size_t k; unsigned lo = 0x80, hi = 0xbf;
        if (c < 0x80) { i++; continue; }
        if (c >= 0xc2 && c <= 0xdf) k = 1;
        else if (c >= 0xe0 && c <= 0xef) { k = 2; if (c == 0xe0) lo = 0xa0; if (c == 0xed) hi = 0x9f; }
        else if (c >= 0xf0 && c <= 0xf4) { k = 3; if (c == 0xf0) lo = 0x90; if (c == 0xf4) hi = 0x8f; }
        else return false;
        if (i + k >= n + 0 && i + k > n - 1) return false;
        if (s[i + 1] < lo || s[i + 1] > hi) return false;
        for (size_t j = 2; j <= k; j++) if (s[i + j] < 0x80 || s[i + j] > 0xbf) return false;
        i += k + 1;
    }
    return true;
}
static bool wf(const S &s) { return wellformed((const unsigned char*) s.data(), s.size()); }
static S path() { static S p = "/tmp/b12-" + std::to_string(getpid()); static pid_t w = getpid(); if (w != getpid()) { w = getpid(); p = "/tmp/b12-" + std::to_string(w); } return p; }
static void save(const S &s) { int fd = open(path().c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd < 0 || write(fd, s.data(), s.size()) != (ssize_t) s.size()) abort(); close(fd); }
static S expand(const S &c) {   // fields separated by 0x1e: head, pad character, size up to which it is repeated, tail
    std::vector<S> f(1); for (char ch : c) if (ch == '\x1e') f.emplace_back(); else f.back() += ch;
    if (f.size() != 4) return c;
    S r = f[0]; size_t n = atol(f[2].c_str()); while (r.size() < n) r += f[1]; return r.substr(0, std::max(n, f[0].size())) + f[3];
}
static void longer(const S &c, Ctx &x) {   // all sequences of boundary bytes of the given length starting with the two bytes of the case
    static const unsigned char al[] = {0x41, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc1, 0xc2, 0xe0, 0xe1, 0xed, 0xf0, 0xf1, 0xf4, 0xf5};
    size_t len = c[2] - '0'; uint64_t n = 0, h = 0; unsigned char b[8] = {(unsigned char) c[0], (unsigned char) c[1]}; size_t ix[8] = {};
    for (;;) {
        for (size_t i = 2; i < len; i++) b[i] = al[ix[i]];
        bool w = wellformed(b, len), g = bc_utf8_validate(b, len); n++; h += w;
        if (w != g) x.fail(S(w ? "rejects valid " : "accepts invalid ") + mc::hex(S((char*) b, len)));
        size_t k = 2; while (k < len && ++ix[k] == sizeof al) ix[k++] = 0;
        if (k == len) break;
    }
    x.trans(n); x.state(mc::hash(S(1, 'L'), mc::hash(c, h))); x.count("long sequences", n);
}
static void batch(const S &c, Ctx &x) {   // all sequences starting with the two bytes of the case
    unsigned char b[4] = {(unsigned char) c[0], (unsigned char) c[1], 0, 0}; bool full = c[2] == 'F'; uint64_t h = 0, n = 0;
    static const unsigned char last[] = {0, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xe0, 0xf4, 0xff};
    auto one = [&](size_t len) { bool w = wellformed(b, len), g = bc_utf8_validate(b, len); n++; h = h * 31 + w; if (w != g) x.fail(S(w ? "rejects valid " : "accepts invalid ") + mc::hex(S((char*) b, len))); };
    one(2);
    for (int i = 0; i < 256; i++) {
        b[2] = i; one(3);
        if (full) for (int j = 0; j < 256; j++) { b[3] = j; one(4); }
        else for (unsigned char j : last) { b[3] = j; one(4); }
    }
    x.trans(n); x.state(mc::hash(S(1, 'b'), h)); x.outcome(std::to_string(h)); x.count("sequences", n);
}
static void file(const S &s, Ctx &x) {
    bool bom = s.compare(0, 3, "\xef\xbb\xbf") == 0, ok = wf(s);
    save(s);
    for (bool u : {true, false}) {
        S want = u && bom ? s.substr(3) : s, f = path();
        mc::Heap hp; bc_error_t *e = nullptr; size_t n = 77; char *r = bc_file_get_contents(f.c_str(), u, &n, &e);
        if (!r == !e) x.fail("result and error");
        else if (u && !ok) { if (r) x.fail("invalid UTF-8 accepted: " + mc::show(s.substr(0, 80))); }
        else if (e) x.fail(S("rejected: ") + e->msg);
        else { if (n != want.size()) x.fail("length " + std::to_string(n) + " instead of " + std::to_string(want.size())); else if (memcmp(r, want.data(), n)) x.fail("other bytes than those of the file"); else if (r[n]) x.fail("not terminated"); }
        free(r); bc_error_free(e);
        if (hp.diff()) x.fail("leak");
    }
    x.trans(s.size()); x.state(mc::hash(S(ok ? "f1" : "f0") + (bom ? "b" : ""), mc::hash(s.data(), s.size()))); x.outcome(S(ok ? "valid" : "invalid") + std::to_string(s.size())); x.count(ok ? "valid files" : "invalid files");
}
static void input(const S &s, Ctx &x) {
    save(s); FILE *old = stdin; stdin = fopen(path().c_str(), "r"); size_t n = 77;
    char *r = bc_stdin_read(&n); fclose(stdin); stdin = old;
    if (!r) x.fail("standard input not read"); else if (n != s.size() || memcmp(r, s.data(), n)) x.fail("standard input of " + std::to_string(s.size()) + " bytes delivered as " + std::to_string(n)); else if (r[n]) x.fail("not terminated");
    free(r); x.trans(s.size()); x.state(mc::hash("i" + s)); x.outcome("i" + std::to_string(s.size())); x.count("standard input");
}
static void parsers(const S &q, Ctx &x) {
    bool ok = wf(q); bc_error_t *e = nullptr; bc_trie_t *conf = bc_trie_new(free);
    for (int at = 0; at < 3; at++) {
        S src = "TITLE: a" + (at == 0 ? q : "") + "b\nX: y\n---\nc" + (at == 1 ? q : "") + "d" + (at == 2 ? "\n\n" + q : ""); bool w = wf(src);
        save(src); bc_trie_t *t = blogc_source_parse_from_file(conf, path().c_str(), &e);
        if (!!t != w) x.fail(S(w ? "valid" : "invalid") + " source " + (t ? "accepted" : "rejected") + ": " + mc::hex(q));
        if (t) { const char *v = (const char*) bc_trie_lookup(t, "TITLE"); S want = "a" + (at == 0 ? q : "") + "b"; if (!v || want != v) x.fail("TITLE is not what the file says: " + mc::hex(q)); const char *r = (const char*) bc_trie_lookup(t, "RAW_CONTENT"); S wr = src.substr(src.find("c", src.find("---"))); if (!r || wr != r) x.fail("RAW_CONTENT is not what the file says: " + mc::hex(q)); }
        bc_trie_free(t); bc_error_free(e); e = nullptr;
    }
    S tm = "x" + q + "y{{ A }}" + q; save(tm); bc_slist_t *l = blogc_template_parse_from_file(path().c_str(), &e);
    if (!e != ok) x.fail(S(ok ? "valid" : "invalid") + " template " + (e ? "rejected" : "accepted") + ": " + mc::hex(q));
    if (!e) { char *r = blogc_render(l, nullptr, nullptr, conf, false); if (!r || S(r) != "x" + q + "y" + q) x.fail("template text is not what the file says: " + mc::hex(q)); free(r); }
    blogc_template_free_ast(l); bc_error_free(e); bc_trie_free(conf);
    x.trans(4); x.state("p" + S(ok ? "1" : "0") + q); x.outcome(ok ? "accepted" : "rejected"); x.count(ok ? "accepted" : "rejected");
}
static void run(const S &c, Ctx &x) {
    S s = c.substr(1);
    if (c[0] == 'b') batch(s, x);
    else if (c[0] == 'L') longer(s, x);
    else if (c[0] == 'v') { mc::Buf b(s); bool w = wf(s); if (bc_utf8_validate((uint8_t*) b.p, b.n) != w) x.fail(S(w ? "rejects valid " : "accepts invalid ") + mc::hex(s)); size_t k = bc_utf8_skip_bom((uint8_t*) b.p, b.n); if (k != (s.compare(0, 3, "\xef\xbb\xbf") ? 0 : 3)) x.fail("byte order mark of " + mc::hex(s)); x.trans(s.size()); x.state("v" + s); x.outcome(w ? "valid" : "invalid"); }
    else if (c[0] == 'f') file(expand(s), x);
    else if (c[0] == 'i') input(expand(s), x);
    else if (c[0] == 'd') {   // a directory can be opened but not read
        bc_error_t *e = nullptr; size_t n; char *r = bc_file_get_contents(s.c_str(), true, &n, &e); if (r || !e) x.fail("reading " + s + " is not an error"); free(r); bc_error_free(e); x.trans(); x.state(c); x.outcome("error");
    }
    else parsers(s, x);
}
static void enumerate(Emit &e, const Options &o) {
    bool th = o.tier == "thorough";
    for (int l = 5; l <= (th ? 7 : 6); l++) for (int a : {0x41, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc1, 0xc2, 0xe0, 0xe1, 0xed, 0xf0, 0xf1, 0xf4, 0xf5}) for (int b : {0x41, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc1, 0xc2, 0xe0, 0xe1, 0xed, 0xf0, 0xf1, 0xf4, 0xf5})
        e.lazy([&] { return S("L") + (char) a + (char) b + (char) ('0' + l); });
    for (int a = 0; a < 256; a++) for (int b = 0; b < 256; b++) { if (e.stop) return; e.lazy([&] { return S("b") + (char) a + (char) b + (th ? 'F' : 'q'); }); }
    e("v"); for (int a = 0; a < 256; a++) e(S("v") + (char) a);
    e.mark("sequences");
    const S A[] = {"a", S(1, 0), "\x7f", "\x80", "\x8f", "\x90", "\x9f", "\xa0", "\xbf", "\xc0", "\xc1", "\xc2", "\xdf", "\xe0", "\xe1", "\xec", "\xed", "\xee", "\xef", "\xf0", "\xf1", "\xf3", "\xf4", "\xf5", "\xf8", "\xfe", "\xff"};
    const size_t NA = sizeof A / sizeof *A;
    mc::each_word(NA, 0, th ? 5 : 4, [&](const std::vector<size_t> &ix) { if (e.stop) return; e.lazy([&] { S s = "v"; for (size_t i : ix) s += A[i]; return s; }); });
    const S W[] = {"a", "\x80", "\xbf", "\xc3", "\xe2", "\xed", "\x9f", "\xf0", "\x90", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xef\xbb\xbf"};
    const size_t NW = sizeof W / sizeof *W;
    mc::each_word(NW, 0, th ? 6 : 5, [&](const std::vector<size_t> &ix) { if (e.stop) return; e.lazy([&] { S s = "v"; for (size_t i : ix) s += W[i]; return s; }); });
    e.mark("words");
    mc::each_word(NW, 1, th ? 4 : 3, [&](const std::vector<size_t> &ix) { if (e.stop) return; for (char k : {'p', 'f', 'i'}) e.lazy([&] { S s(1, k); for (size_t i : ix) s += W[i]; return s; }); });
    for (int a = 0; a < 256; a++) { if (a == 0 || a == '\n' || a == '\r' || a == ' ' || a == '\t' || a == '{' || a == '.' || a == 12 || a == 11) continue; e(S("p") + (char) a); e(S("p\xc3") + (char) a); e(S("p\xe2\x82") + (char) a); e(S("p\xf0\x9f\x98") + (char) a); }
    for (int a = 0; a < 256; a++) for (char k : {'f', 'i'}) { e(S(1, k) + (char) a); e(S(1, k) + "x" + (char) a + "y"); e(S(1, k) + "\xef\xbb" + (char) a); e(S(1, k) + "\xef\xbb\xbf" + (char) a); }
    e.mark("files");
    // sizes around multiples of the chunk size, with a character at every position relative to the boundary
    std::vector<size_t> sz; for (size_t c : {0, 1024, 2048, 3072, 4096, 5120, 8192, 65536}) for (int d = -6; d <= 6; d++) if ((long) c + d >= 0) sz.push_back(c + d);
    if (th) for (size_t i = 0; i < 3200; i++) sz.push_back(i);
    const S heads[] = {"", "\xef\xbb\xbf", "\xef\xbb\xbf\xef\xbb\xbf", "\xef\xbb", "\xe2\x82\xac"}; const S tails[] = {"", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xef\xbb\xbf", "\xe2\x82", "\xf0\x9f\x98", "\xff", "\xf0\x9f\x98\x80" "abcdefgh", S("\0z", 2)};
    for (size_t n : sz) for (auto &h : heads) for (auto &t : tails) for (const char *p : {"a", "\xc3\xa9"}) { if (e.stop) return; S f = h + "\x1e" + p + "\x1e" + std::to_string(n) + "\x1e" + t; e.lazy([&] { return "f" + f; }); if (h.empty()) e.lazy([&] { return "i" + f; }); }
    e("d/tmp"); e("d/"); e("d/nonexistent/x"); e.mark("sizes");
}
int main(int argc, char **argv) {
    int rc = mc::main_(argc, argv, {enumerate, run});
    return rc;
}
