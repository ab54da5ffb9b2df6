"""blogc-make in a scratch directory, and a reference of what blogcfile(5) and blogc-make(1) promise."""
import os, posixpath, subprocess
import procs, vrun

BIN = {}
DEFAULTS = {
    "content_dir": "content", "template_dir": "templates", "atom_template": None, "main_template": "main.tmpl", "source_ext": ".txt", "listing_entry": None, "posts_sort": None,
    "pagination_prefix": "page", "posts_per_page": "10", "atom_posts_per_page": "10", "html_ext": "/index.html", "index_prefix": "", "post_prefix": "post", "tag_prefix": "tag",
    "html_order": "DESC", "blog_prefix": None, "atom_prefix": "atom", "atom_ext": ".xml", "atom_order": "DESC", "date_format": "%b %d, %Y, %I:%M %p GMT", "locale": None, "run_from_make": None}
GLOBALS = {"AUTHOR_NAME": "An Author", "AUTHOR_EMAIL": "author@example.org", "SITE_TITLE": "A site", "SITE_TAGLINE": "It's here", "BASE_DOMAIN": "http://example.org"}


def setup():
    BIN.update(vrun.binaries("plain", ("blogc", "blogc-make", "blogc-runserver")))
    BIN["rec"] = vrun.tool("rec")
    BIN["nap"] = vrun.shim("nap")
    procs.fi()


def quote(v):
    return '"%s"' % v.replace("\\", "\\\\").replace('"', '\\"')


class Conf:
    """A blogcfile: settings that differ from the defaults, globals, lists; sources: {slug: (date, tags, body)}"""

    def __init__(self, settings=(), globals_=GLOBALS, posts=("p1", "p2", "p3"), pages=("about", "index"), tags=("ta", "tb"), copy=("static",), dev=False, out=None, posttags=None, raw=None):
        self.given = dict(settings)
        self.s = dict(DEFAULTS)
        self.s.update(self.given)
        self.globals = dict(globals_)
        self.posts, self.pages, self.tags, self.copy = list(posts), list(pages), list(tags), list(copy)
        self.dev, self.out = dev, out
        self.posttags = posttags or {}
        self.files = {"static/a.css": b"body {}\n", "static/d/b.bin": bytes(range(256)) * 9, "static/empty": b"", "one.txt": b"one\n", "other.txt": b"not copied\n"}

    def text(self):
        t = "[global]\n" + "".join("%s = %s\n" % (k, quote(v)) for k, v in self.globals.items())
        if self.given:
            t += "\n[settings]\n" + "".join("%s = %s\n" % (k, quote(v)) for k, v in self.given.items() if v is not None)
        for n in ("posts", "pages", "tags", "copy"):
            l = getattr(self, n)
            if l:
                t += "\n[%s]\n" % n + "".join(quote(x) + "\n" for x in l)
        return t

    # -------------------------------------------------------------------------------- names (blogcfile(5))
    def name(self, prefixes, fname, ext):
        """prefixes: (of the blog or None, own or None)"""
        blog, own = prefixes
        if fname == "index" and ext[:1] == "/" and not own:   # the index is special: no directory of that name
            fname = ""
            return "/".join(p for p in (blog,) if p) + ext if blog else ext[1:]
        if fname is None and ext[:1] != "/" and not own:
            fname = "index"
        p = "/".join(x for x in (blog, own, fname) if x)
        return (p + ext).lstrip("/") if p else ext.lstrip("/")

    def source(self, prefixes, slug):
        return self.s["content_dir"] + "/" + self.name(prefixes, slug, self.s["source_ext"])

    def posts_src(self):
        return [self.source((self.s["blog_prefix"], self.s["post_prefix"]), p) for p in self.posts]

    def pages_src(self):
        return [self.source((None, None), p) for p in self.pages]

    def entry_src(self):
        e = self.s["listing_entry"]
        return None if e is None else self.source((self.s["blog_prefix"], None), e)

    def meta(self, i):
        """date and tags of the i-th post"""
        slug = self.posts[i]
        return "2020-0%d-1%d 10:11:12" % (1 + (i * 5) % 7, i % 10), self.posttags.get(slug, [t for k, t in enumerate(self.tags) if (i + 1) >> k & 1])

    def tree(self):
        """The files of the site"""
        t = {"blogcfile": self.text()}
        for i, (slug, src) in enumerate(zip(self.posts, self.posts_src())):
            d, tags = self.meta(i)
            t[src] = "TITLE: Post %s\nDATE: %s\n%s---\n\nThe *text* of %s.\n" % (slug, d, "TAGS: %s\n" % " ".join(tags) if tags else "", slug)
        for slug, src in zip(self.pages, self.pages_src()):
            t[src] = "TITLE: Page %s\n---\n\nThe page %s.\n" % (slug, slug)
        if self.entry_src():
            t.setdefault(self.entry_src(), "TITLE: The entry\n---\n\nAbove the list.\n")
        td = self.s["template_dir"]
        t[posixpath.join(td, self.s["main_template"])] = MAIN
        if self.s["atom_template"] is not None:
            t[posixpath.join(td, self.s["atom_template"])] = ATOM
        t.update(self.files)
        return t

    # -------------------------------------------------------------------------------- what is built (blogc-make(1))
    def with_tag(self, tag):
        return [i for i in range(len(self.posts)) if tag is None or tag in " ".join(self.meta(i)[1]).strip().split(" ")]   # a tag has no spaces

    def pages_of(self, tag):
        n = num(self.s["posts_per_page"])
        return -(-len(self.with_tag(tag)) // n) if n > 0 else 0

    def want(self):
        """[(path below the output directory, {what: ..})]"""
        s, res = self.s, []
        blog = s["blog_prefix"]
        common = dict(self.globals)
        if self.tags:
            common["MAKE_TAGS"] = " ".join(self.tags)
        if self.dev:
            common.update(MAKE_ENV_DEV="1", MAKE_ENV="dev")
        td = s["template_dir"]
        main = posixpath.join(td, s["main_template"])
        atom = posixpath.join(td, s["atom_template"]) if s["atom_template"] is not None else None

        def order(v):
            asc, sort = (v or "").lower() == "asc", truth(s["posts_sort"])
            r = {"FILTER_SORT": "1"} if sort else {}
            if sort == asc:
                r["FILTER_REVERSE"] = "1"
            return r

        def limit(v):
            return {"FILTER_PAGE": "1", "FILTER_PER_PAGE": v} if num(v) >= 0 else {}

        def put(rule, p, t, d, listing=True, srcs=None, entry=None):
            res.append((p, {"rule": rule, "template": t, "D": dict(common, MAKE_RULE=rule, **d), "listing": listing, "entry": entry, "sources": self.posts_src() if srcs is None else srcs}))

        html = dict(order(s["html_order"]), DATE_FORMAT=s["date_format"], MAKE_TYPE="post")
        feed = dict(order(s["atom_order"]), DATE_FORMAT="%Y-%m-%dT%H:%M:%SZ", MAKE_TYPE="atom")
        ent = self.entry_src()
        if self.posts and num(s["posts_per_page"]) != 0:
            d = dict(html, **limit(s["posts_per_page"]))
            put("index", self.name((blog, s["index_prefix"]), None, s["html_ext"]), main, d, entry=ent)
            for t in self.tags:
                put("tags", self.name((blog, s["tag_prefix"]), t, s["html_ext"]), main, dict(d, FILTER_TAG=t), entry=ent)
            for t in [None] + self.tags:
                for k in range(1, self.pages_of(t) + 1):
                    own = "/".join(x for x in ((s["tag_prefix"], t, s["pagination_prefix"]) if t is not None else (s["pagination_prefix"],)) if x)
                    put("pagination" if t is None else "pagination_tags", self.name((blog, own), str(k), s["html_ext"]), main,
                        dict(html, FILTER_PER_PAGE=s["posts_per_page"], FILTER_PAGE=str(k), **({} if t is None else {"FILTER_TAG": t})), entry=ent)
        if self.posts and num(s["atom_posts_per_page"]) != 0:
            d = dict(feed, **limit(s["atom_posts_per_page"]))
            put("atom", self.name((blog, s["atom_prefix"]), None, s["atom_ext"]), atom, d)
            for t in self.tags:
                put("atom_tags", self.name((blog, s["atom_prefix"]), t, s["atom_ext"]), atom, dict(d, FILTER_TAG=t))
        for slug, src in zip(self.posts, self.posts_src()):
            put("posts", self.name((blog, s["post_prefix"]), slug, s["html_ext"]), main, {"DATE_FORMAT": s["date_format"], "MAKE_TYPE": "post", "MAKE_SLUG": slug}, False, [src])
        for slug, src in zip(self.pages, self.pages_src()):
            put("pages", self.name((None, None), slug, s["html_ext"]), main, {"DATE_FORMAT": s["date_format"], "MAKE_TYPE": "page", "MAKE_SLUG": slug}, False, [src])
        for c in self.copy:
            for f, v in self.files.items():
                if f == posixpath.normpath(c) or f.startswith(posixpath.normpath(c) + "/"):
                    res.append((f, {"rule": "copy", "content": v}))
        return res

    def clash(self):
        """Two rules that want the same path, or a path below another one: which one wins is not specified"""
        ps = [p for p, w in self.want()]
        if len(set(ps)) != len(ps):
            return True
        return any(p + "/" == q[:len(p) + 1] for p in ps for q in ps if p != q)


def num(v):
    """The leading integer of a setting, as strtol(3)"""
    v = (v or "").strip()
    k = 1 if v[:1] in ("-", "+") else 0
    while k < len(v) and v[k].isdigit():
        k += 1
    try:
        return int(v[:k])
    except ValueError:
        return 0


def truth(v):
    return (v or "").lower() in ("1", "y", "yes", "true", "on")


MAIN = "{% ifdef MAKE_RULE %}{{ MAKE_RULE }}{% endif %}|{{ MAKE_TYPE }}|{{ SITE_TITLE }}\n{% block entry %}entry {{ TITLE }} {% ifdef DATE %}{{ DATE_FORMATTED }}{% endif %} {{ MAKE_SLUG }}\n{{ CONTENT }}{% endblock %}{% block listing_once %}list {{ CURRENT_PAGE }}/{{ LAST_PAGE }}{% ifdef FILTER_TAG %} of {{ FILTER_TAG }}{% endif %}\n{% endblock %}{% block listing_entry %}above {{ TITLE }}{{ CONTENT }}{% endblock %}{% block listing %}- {{ TITLE }} {{ DATE_FORMATTED }}\n{% endblock %}{% ifdef MAKE_TAGS %}{% foreach MAKE_TAGS %}[{{ FOREACH_ITEM }}]{% endforeach %}{% endif %}{% ifdef MAKE_ENV_DEV %}dev {{ MAKE_ENV }}{% endif %}\n"
ATOM = "<atom>{{ MAKE_RULE }}{% block listing %}{{ TITLE }} {{ DATE_FORMATTED }}{% endblock %}</atom>\n"


def record(c, w, root):
    """What shim/rec.c writes for an output"""
    hx = lambda v: (v if isinstance(v, bytes) else v.encode("utf-8", "surrogateescape")).hex() or "-"
    l = ["D %s=%s" % (k, hx(v)) for k, v in w["D"].items()]
    if w["listing"]:
        l.append("l")
        if w["entry"]:
            l.append("e " + hx(root + "/" + w["entry"]))
    l.append("t " + ("-" if w["template"] is None else hx(c.tree()[w["template"]])))
    l.append("L " + hx(c.s["locale"] if c.s["locale"] is not None else "C"))
    return "".join(x + "\n" for x in sorted(l, key=lambda x: x.encode()) + ["s " + hx(root + "/" + p) for p in w["sources"]]).encode()


def env(root, **kw):
    e = {"BLOGC": BIN["blogc"], "BLOGC_RUNSERVER": BIN["blogc-runserver"], "REC_BLOGC": BIN["blogc"], "REC_ROOT": root}
    e.update(kw)
    return e


def make(root, args=(), fi=None, cwd=None, exe=None, timeout=30, **kw):
    cmd = [exe or BIN["blogc-make"]] + list(args)
    if fi is not None:
        cmd = procs.with_fi(cmd, timeout=timeout, **fi)
    return procs.run(cmd, cwd=cwd or root, env=env(root, **kw), timeout=timeout + 20)


def reference(c, root, w):
    """The content that the real blogc gives for an output"""
    a = [BIN["blogc"]]
    for k, v in w["D"].items():
        a += ["-D", "%s=%s" % (k, v)]
    if w["listing"]:
        a += ["-l"] + (["-e", root + "/" + w["entry"]] if w["entry"] else [])
    a += ["-t", root + "/" + w["template"]] + [root + "/" + p for p in w["sources"]]
    r = procs.run(a, env={} if c.s["locale"] is None else {"LC_ALL": c.s["locale"]})
    return r.out if r.rc == 0 else b"reference failed: " + r.err
