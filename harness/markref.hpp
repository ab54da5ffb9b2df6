// Reference model of the source content markup, written from blogc-source(7): inline text by recursive descent, blocks line by
// line. Independent of the structure of src/blogc/content-parser.c (no state machine, no lookback).
#pragma once
#include <string>
#include <vector>
namespace mark {
typedef std::string S;
inline S ent(char c) {
    switch (c) { case '&': return "&amp;"; case '<': return "&lt;"; case '>': return "&gt;"; case '"': return "&quot;"; case '\'': return "&#x27;"; case '/': return "&#x2F;"; }
    return S(1, c);
}
inline S ents(const S &s) { S r; for (char c : s) r += ent(c); return r; }
inline S unesc(const S &s) {
    S r; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '\\') { if (++i < s.size()) r += s[i]; } else r += s[i]; } return r;
}
// first unescaped delimiter (one or two times c) at or after i; npos if none
inline size_t closing(const S &s, size_t i, char c, int n) {
    while (i < s.size()) {
        if (s[i] == '\\') { i += 2; continue; }
        if (s[i] == c && (n == 1 || (i + 1 < s.size() && s[i + 1] == c))) return i;
        i++;
    }
    return S::npos;
}
// the link destination after the closing bracket at i-1: blanks, '(' text ')'; returns the end or npos
inline size_t dest(const S &s, size_t i, S &url) {
    while (i < s.size() && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r')) i++;
    if (i >= s.size() || s[i] != '(') return S::npos;
    size_t e = closing(s, i + 1, ')', 1);
    if (e == S::npos) return e;
    url = unesc(s.substr(i + 1, e - i - 1)); return e + 1;
}
inline S inl(const S &s) {
    S r; size_t i = 0, n = s.size();
    while (i < n) {
        char c = s[i];
        bool more = i + 1 < n;
        if (c == '\\' && more) { r += ent(s[i + 1]); i += 2; continue; }
        if ((c == '*' || c == '_' || c == '`') && more) {
            int k = s[i + 1] == c ? 2 : 1;
            size_t e = closing(s, i + k, c, k);
            if (e == S::npos) { r += S(k, c); i += k; continue; }
            S body = s.substr(i + k, e - i - k), tag = c == '`' ? "code" : k == 2 ? "strong" : "em";
            r += "<" + tag + ">" + (c == '`' ? ents(body) : inl(body)) + "</" + tag + ">"; i = e + k; continue;
        }
        if (c == '[' && more) {
            if (s[i + 1] == '[') {
                size_t e = closing(s, i + 2, ']', 2);
                if (e == S::npos) { r += "[["; i += 2; continue; }
                S u = unesc(s.substr(i + 2, e - i - 2)); r += "<a href=\"" + u + "\">" + u + "</a>"; i = e + 2; continue;
            }
            size_t j = i + 1; int depth = 1; S url;
            for (; j < n; j++) { if (s[j] == '\\') j++; else if (s[j] == '[') depth++; else if (s[j] == ']' && --depth == 0) break; }
            size_t e = j < n ? dest(s, j + 1, url) : S::npos;
            if (e == S::npos) { r += "["; i++; continue; }
            r += "<a href=\"" + url + "\">" + inl(s.substr(i + 1, j - i - 1)) + "</a>"; i = e; continue;
        }
        if (c == '!' && more && s[i + 1] == '[') {
            S url; size_t j = closing(s, i + 2, ']', 1), e = j == S::npos ? j : dest(s, j + 1, url);
            if (e == S::npos) { r += "!["; i += 2; continue; }
            r += "<img src=\"" + url + "\" alt=\"" + unesc(s.substr(i + 2, j - i - 2)) + "\">"; i = e; continue;
        }
        if (c == '-' && more && s[i + 1] == '-') {
            if (i + 2 < n && s[i + 2] == '-') { r += "&mdash;"; i += 3; } else { r += "&ndash;"; i += 2; }
            continue;
        }
        if (c == ' ') {
            size_t j = i; while (j < n && s[j] == ' ') j++;
            if (j - i >= 2 && (j == n || s[j] == '\n' || s[j] == '\r')) r += "<br />"; else r += s.substr(i, j - i);
            i = j; continue;
        }
        r += ent(c); i++;
    }
    return r;
}
inline S slug(S s) { for (char &c : s) { if (c >= 'A' && c <= 'Z') c += 32; else if (!((c >= 'a' && c <= 'z') || (c >= '0' && c <= '9'))) c = '-'; } return s; }
inline bool ws(char c) { return c == ' ' || c == '\t'; }
inline S strip(const S &s) { size_t a = 0, b = s.size(); auto sp = [](char c) { return c == ' ' || (c >= 9 && c <= 13); };
    while (a < b && sp(s[a])) a++; while (b > a && sp(s[b - 1])) b--; return s.substr(a, b - a); }

struct Line { S t, eol; };
inline std::vector<Line> lines(const S &s) {
    std::vector<Line> r; size_t i = 0;
    while (i < s.size()) {
        size_t j = i; while (j < s.size() && s[j] != '\n' && s[j] != '\r') j++;
        Line l; l.t = s.substr(i, j - i); 
        if (j < s.size()) { size_t k = j + 1; if (k < s.size() && (s[k] == '\n' || s[k] == '\r') && s[k] != s[j]) k++; l.eol = s.substr(j, k - j); j = k; }
        r.push_back(l); i = j;
    }
    return r;
}
struct Head { size_t level; S slug, html; };
struct Doc {
    S html, first_header, description; bool has_header = false, has_description = false;
    std::vector<size_t> excerpts;    // html length at each separator
    std::vector<Head> heads;
    bool unspecified = false;        // the manual leaves open what this document means
    bool joins = false;              // contains a header without title: it is joined to what follows (pinned by an existing test)
    std::vector<S> kinds;
};
// eol: the line ending used for generated lines (first one of the document)
inline Doc blocks(const S &src, S eol, bool top) {
    Doc d; auto L = lines(src);
    if (eol.empty()) { for (auto &l : L) if (!l.eol.empty()) { eol = l.eol; break; } if (eol.empty()) eol = "\n"; }
    size_t i = 0, n = L.size();
    auto all = [](const S &t, size_t from, char c) { for (size_t k = from; k < t.size(); k++) if (t[k] != c) return false; return true; };
    while (i < n) {
        const S &t = L[i].t;
        if (t.empty()) { i++; continue; }
        char c = t[0];
        // a block reaches to the next empty line
        size_t e = i; while (e < n && !L[e].t.empty()) e++;
        if (all(t, 0, ' ') || strip(t).empty()) { i++; d.unspecified = d.unspecified || e - i > 0; d.kinds.push_back("blank"); continue; }
        if (c == '#') {
            size_t k = 0; while (k < t.size() && t[k] == '#') k++;
            size_t w = k; while (w < t.size() && ws(t[w])) w++;
            if (k == t.size()) d.unspecified = d.joins = true;
            if (w > k) {
                S title = t.substr(w);
                if (title.empty()) d.unspecified = true;
                if (!d.has_header) { d.has_header = true; d.first_header = ents(title); }
                S lv = std::to_string(k), sl = slug(title), h = inl(title);
                d.heads.push_back({k, sl, h});
                d.html += "<h" + lv + " id=\"" + sl + "\">" + h + "</h" + lv + ">" + eol;
                d.kinds.push_back("header"); i++; continue;
            }
        }
        if (top && c == '.' && all(t, 0, '.') && e - i == 1) {
            if (t.size() < 2) d.unspecified = true;
            d.excerpts.push_back(d.html.size()); d.kinds.push_back("excerpt"); i = e; continue;
        }
        if ((c == '*' || c == '-' || c == '+') && all(t, 0, c) && t.size() >= 2) {
            if (t.size() == 2) d.unspecified = true;
            else { d.html += "<hr />" + eol; d.kinds.push_back("hr"); i++; continue; }
        }
        if (c == '<') {
            for (size_t k = i; k < e; k++) d.html += L[k].t + (k + 1 < e ? L[k].eol : S());
            d.html += eol; d.kinds.push_back("html"); i = e; continue;
        }
        if (c == '>' || ws(c)) {
            size_t w = c == '>' ? 1 : 0; while (w < t.size() && ws(t[w])) w++;
            S prefix = t.substr(0, w); bool ok = true;
            for (size_t k = i; k < e; k++) ok = ok && L[k].t.compare(0, w, prefix) == 0;
            if (ok && c == '>') {
                S in; for (size_t k = i; k < e; k++) in += L[k].t.substr(w) + eol;
                Doc q = blocks(in, eol, false); d.unspecified = d.unspecified || q.unspecified; d.joins = d.joins || q.joins;
                d.html += "<blockquote>" + q.html + "</blockquote>" + eol; d.kinds.push_back("quote"); i = e; continue;
            }
            if (ok) {
                d.html += "<pre><code>";
                for (size_t k = i; k < e; k++) d.html += ents(L[k].t.substr(w)) + (k + 1 < e ? eol : S());
                d.html += "</code></pre>" + eol; d.kinds.push_back("code"); i = e; continue;
            }
        }
        bool ul = (c == '*' || c == '-' || c == '+') && (c != '*' || (t.size() > 1 && ws(t[1]))) && (t.size() < 2 || t[1] != c);
        size_t dg = 0; while (dg < t.size() && t[dg] >= '0' && t[dg] <= '9') dg++;
        bool ol = dg > 0 && dg < t.size() && t[dg] == '.';
        if (ul || ol) {
            size_t w = ul ? 1 : dg + 1; while (w < t.size() && ws(t[w])) w++;
            if (ul && w == t.size()) d.unspecified = true;   // item without content
            S prefix = t.substr(0, w), items; bool ok = true; S item; bool open = false;
            auto flush = [&]() { if (open) items += "<li>" + inl(item) + "</li>" + eol; item.clear(); open = true; };
            for (size_t k = i; k < e && ok; k++) {
                const S &u = L[k].t;
                bool start;
                if (ul) start = u.compare(0, w, prefix) == 0;
                else {
                    size_t q = 0; while (q < u.size() && u[q] >= '0' && u[q] <= '9') q++;
                    start = q > 0 && q < u.size() && u[q] == '.' && q + 1 <= w;
                    for (q++; start && q < w; q++) start = q < u.size() && ws(u[q]);
                    start = start && u.size() > w;
                    if (ul == false && q == w && u.size() == w && u.find('.') != S::npos) d.unspecified = true;
                }
                if (start) { flush(); item = u.substr(w); }
                else if (open && u.compare(0, w, S(w, ' ')) == 0) item += eol + u.substr(w);
                else ok = false;
            }
            if (ok) { flush(); S tag = ul ? "ul" : "ol"; d.html += "<" + tag + ">" + eol + items + "</" + tag + ">" + eol; d.kinds.push_back(tag); i = e; continue; }
        }
        S p; for (size_t k = i; k < e; k++) p += L[k].t + (k + 1 < e ? L[k].eol : S());
        if (!d.has_description) {
            d.has_description = true; S q;
            for (size_t k = i; k < e; k++) q += (k > i ? " " : "") + strip(L[k].t);
            d.description = ents(strip(q));
        }
        d.html += "<p>" + inl(p) + "</p>" + eol; d.kinds.push_back("p"); i = e;
    }
    return d;
}
}
