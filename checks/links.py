"""http_rewrite (C36)."""
from filt import J, XE, bk, flexml, goodbye, hexs, init, run_scripts, search


def XA(s):
    return XE(s).replace('"', "&quot;")


def codes(s):
    return [ord(c) for c in s]


class Re:
    """A regular expression, as a tree for the specification and as text."""

    def __init__(self, r, names, n=None, cuts="", deep=2, anch=None):
        self.r, self.groups, self.names = r, [], names
        self.anch = r.random() < .15 if anch is None else anch
        ns, tx = self.seq(deep, cuts)
        if self.anch:
            ns, tx = [{"k": "bot"}] + ns, "^" + tx
        if r.random() < .07:
            ns, tx = ns + [{"k": "eot"}], tx + "$"
        self.ns, self.tx = ns, tx

    def esc(self, c):
        return "\\" + c if c in ".?*+()[]{}|^$\\" or (c in "/:" and self.r.random() < .0) else c

    def quant(self):
        return self.r.choice([("", 1, 1)] * 5 + [("*", 0, 999), ("+", 1, 999), ("+", 1, 999), ("?", 0, 1)])

    def item(self, deep):
        r, x = self.r, self.r.random()
        if x < .42:
            w = r.choice(["foo", "http", "://", "a", "b", "/", "x.", "?", "ba", "(", "o", ":"])
            return [{"k": "set", "s": [ord(c)], "neg": False, "min": 1, "max": 1} for c in w], "".join(self.esc(c) for c in w)
        if x < .72:
            q, lo, hi = self.quant()
            s, neg, t = r.choice([("/", True, "[^/]"), (" /", True, "[^ /]"), ("abc", False, "[a-c]"), ("ab", False, "[ab]"), ("", True, "."), ("o", False, "o"), ("fo", False, "[fo]"), ("'\"", True, "[^'\"]")])
            return [{"k": "set", "s": codes(s), "neg": neg, "min": lo, "max": hi}], t + q
        if deep == 0:
            return self.item(0) if r.random() < .7 else ([{"k": "set", "s": [ord("o")], "neg": False, "min": 1, "max": 1}], "o")
        kind = r.choice("nnnPu:")
        n = 0
        if kind != ":":
            n = len(self.groups) + 1
            self.groups.append(r.choice(self.names) if kind in "nP" else "")
        if r.random() < .3:
            a, b = self.seq(deep - 1, ""), self.seq(deep - 1, "")
            ns, tx = [{"k": "alt", "a": [a[0], b[0]]}], a[1] + "|" + b[1]
        else:
            ns, tx = self.seq(deep - 1, "")
        if kind == ":":
            return ns, "(?:" + tx + ")"
        return ([{"k": "open", "n": n}] + ns + [{"k": "close", "n": n}],
                {"n": "(?<%s>", "P": "(?P<%s>", "u": "(%s"}[kind] % (self.groups[n - 1] if kind in "nP" else "") + tx + ")")

    def seq(self, deep, cuts):
        ns, tx = [], ""
        for _ in range(self.r.choice([1, 1, 2, 2, 3])):
            a, b = self.item(deep)
            ns, tx = ns + a, tx + b
        return ns, tx


def http_rewrite(ctx):
    ctx.model_check("LinkMC", ctx.pick("LinkMC", "LinkMCT"))
    r = ctx.rng
    scripts, skips = [], {}
    NAMES = ["p", "host", "path", "x1"]
    URLS = ["http://foo/a", "https://a.b/foo", "/foo", "foo", "http://x.b:80/a?b=c", "cx", "//b/c", "a", "", "(b)", "x&y", "a b", "oo", "http://h/foo/ba/foo"]

    def url():
        u = r.choice(URLS)
        return u + r.choice(URLS) if r.random() < .2 else u

    def recipe():
        return "".join(r.choice(["${p}", "${host}", "${path}", "${x1}", "${nope}", "http://", "/", "X", "a", "\\$", "\\\\", "foo"]) for _ in range(r.choice([0, 1, 1, 2, 3, 4])))

    def names(pool, many=True):
        """A list of names for a regular expression on whole names."""
        if r.random() < .12:
            return {"any": False, "is": [], "pre": [[]]}, ".*"
        ws = r.sample(pool, r.choice([1, 1, 2]) if many else 1)
        pre = r.random() < .15
        return ({"any": False, "is": [codes(w.lower()) for w in ws[1 if pre else 0:]], "pre": [codes(ws[0].lower())] if pre else []},
                "|".join(w + (".*" if pre and i == 0 else "") for i, w in enumerate(ws)))
    NONE = {"any": True, "is": [], "pre": []}

    def phase():
        x, ph, rules = "", [], {}
        for n in r.sample(["url", "cx", "null", "k"], r.choice([1, 2, 3])):
            rule = []
            x += '<rule name="%s">' % n
            for _ in range(0 if n == "null" else r.choice([1, 1, 2, 3])):
                e, to = Re(r, NAMES), recipe()
                x += '<rewrite from="%s" to="%s"/>' % (XA(e.tx), XA(to))
                rule.append({"anch": e.anch, "ns": e.ns, "names": [codes(g) for g in e.groups], "to": codes(to)})
            x += "</rule>"
            rules[n] = rule
        for _ in range(r.choice([0, 1, 2, 2, 3])):
            t = r.choice(["headers", "headers", "html", "html", "html", "quoted-literal", "other"])
            c = {"type": t, "mime": NONE, "ws": []}
            m = ""
            if t != "headers" and r.random() < .9:
                c["mime"], m = names(["text/html", "text/css", "text/x", "application/x-js"])
                m = ' mime="%s"' % m
            x += '<content type="%s"%s>' % (t, m)
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                w = {"hdr": NONE, "tag": NONE, "attr": NONE, "req": False, "ql": False}
                a = ""
                if t == "headers":
                    if r.random() < .6:
                        w["hdr"], b = names(["Location", "Link", "Host", "X-a", "Content-Type"])
                        a += ' header="%s"' % b
                    if r.random() < .5:
                        w["req"] = True
                        a += ' reqline="1"'
                else:
                    if r.random() < .6:
                        w["tag"], b = names(["a", "script", "img", "style", "p", "b"])
                        a += ' tag="%s"' % b
                    if r.random() < .9:
                        w["attr"], b = names(["href", "src", "#text", "#text", "onclick", "title"])
                        a += ' attr="%s"' % b
                if r.random() < .2:
                    w["ql"] = True
                    a += ' type="quoted-literal"'
                ns = [r.choice(sorted(rules)) for _ in range(r.choice([1, 1, 1, 2]))]
                w["rule"] = [y for n in ns for y in rules[n]]
                x += '<within%s rule="%s"/>' % (a, ",".join(ns))
                c["ws"].append(w)
            x += "</content>"
            ph.append(c)
        return x, ph

    def js(nl=True):
        return "".join(r.choice(["var x=", "'%s'" % url(), '"%s"' % url(), "&quot;%s&quot;" % url(), "\n" if nl else " ", "// %s" % url(), ";", "'", '"', "\\'", "'a\\'b'", '"%s\'s"' % url(), "'%s\"'" % url(), url(), "/", "a<b"]) for _ in range(r.randint(0, 6)))

    def tag():
        n = r.choice(["a", "a", "A", "img", "p", "b", "style", "abc", "br"])
        q = r.choice(['"', '"', "'"])
        v = [url().replace('"', "") for _ in range(3)]
        s = "<" + n
        for _ in range(r.choice([0, 1, 1, 2])):
            an = r.choice(["href", "src", "onclick", "title", "HREF", "x", "#text"])
            y = r.random()
            if y < .6:
                s += " " + an + "=" + q + url() + q
            elif y < .7:
                s += " %s=%s" % (an, r.choice(["foo", "http://foo/a", "cx", "a.b"]))
            elif y < .8:
                s += " " + an
            elif y < .9:
                s += " " + an + "=\"x='%s' y='a'\"" % url()
            else:
                s += " " + an + "='&quot;%s&quot; z'" % url()
        return s + r.choice([">", ">", ">", " />", "/>"]) if not s.endswith("=foo") else s + ">"

    def html():
        s = ""
        for _ in range(r.randint(0, 6)):
            y = r.random()
            if y < .35:
                s += tag()
            elif y < .6:
                s += url() + r.choice([" ", "", " < ", "&amp;"])
            elif y < .75:
                s += "</%s>" % r.choice(["a", "A", "p", "b", "style", "script", "img"])
            elif y < .88:
                s += "<%s>%s</%s>" % (r.choice(["script", "SCRIPT", "style"]), js(False), r.choice(["script", "script", "Script", "style"]))
            else:
                s += r.choice(["<!-- %s -->" % url(), "<!doctype html>", "<?pi %s?>" % url()])
        return s if r.random() < .9 else s[:r.randint(0, len(s))]

    def body():
        return html() if r.random() < .7 else js() if r.random() < .9 else html() + "\0" + url()

    def headers(req):
        h = []
        for _ in range(r.randint(0, 3)):
            h.append([r.choice(["Location", "Link", "link", "X-A", "X-b", "Host", "X-Long"]), url() or "v"])
        if r.random() < .85:
            h.append([r.choice(["Content-Type", "content-type"]), r.choice(["text/html", "text/html", "text/html;charset=x", "Text/HTML", "text/css", "application/x-js", "text/x"])])
        if req:
            if r.random() < .7:
                h.append(["Host", r.choice(["foo", "a.b:80", "h"])])
            while r.random() < .3:
                h.append([r.choice(["X-Metaproxy-SkipLink", "x-metaproxy-skiplink"]), skip()])
        r.shuffle(h)
        return h

    def skip():
        if r.random() < .1:
            return r.choice(["nospace", "( a", "a (", "[ [", "* a", "a *"])
        a, b = Re(r, NAMES, deep=0), Re(r, NAMES, deep=0, anch=False)
        if " " in a.tx or a.tx.endswith(" ") or b.tx.strip() != b.tx:
            return "http foo" if skips.setdefault("http foo", {"page": lits("http"), "link": lits("foo")}) else ""
        t = a.tx + " " + b.tx
        if t in skips and skips[t] != {"page": a.ns, "link": b.ns}:
            return skip()
        skips[t] = {"page": a.ns, "link": b.ns}
        return t

    def lits(w):
        return [{"k": "set", "s": [ord(c)], "neg": False, "min": 1, "max": 1} for c in w]
    for _ in range(ctx.pick(1500, 15000)):
        rx, rp = phase()
        sx, sp = phase()
        ssl = r.random() < .3
        x = ""
        if r.random() < .85:
            x += "<request>%s</request>" % rx
        else:
            rp = []
        if r.random() < .92:
            x += "<response>%s</response>" % sx
        else:
            sp = []
        s = ["config " + hexs(flexml({"start": ['<filter type="http_rewrite">%s</filter>' % x, bk("main")]})), "params " + J({"req": rp, "res": sp, "ssl": ssl}), "bk main {}"]
        for c in "12":
            s.append("origin %s 1.2.3.4 %s@:80" % (c, "ssl:" if ssl else ""))
        for _ in range(r.randint(1, 6)):
            y = r.random()
            s.append("push main " + J({"act": "raw", "resp": {"t": "httpr", "code": r.choice([200, 302, 404]), "h": headers(False), "body": body()}} if y < .93 else
                                      {"act": "none"} if y < .96 else {}))
        for _ in range(r.randint(1, 5)):
            if r.random() < .93:
                q = {"t": "http", "method": r.choice(["GET", "POST"]), "path": r.choice(["/", "/foo", "http://foo/a", "https://a.b/foo?b", "/a/b?x=foo", "/" + url().replace(" ", "")]), "h": headers(True)}
                if r.random() < .4:
                    q["body"] = body()
            else:
                q = r.choice([init(r), search(r, ["D"]), {"t": "none"}])
            s.append("req %s %s" % (r.choice("12"), J(q)))
        goodbye(r, s, "12", .5)
        scripts.append(s)

    def post(e):
        q = e.get("r")
        if isinstance(q, dict) and q["t"] in ("http", "httpr"):
            q["h"] = [[codes(n), codes(v), skips.get(v, {"none": True}) if n.lower() == "x-metaproxy-skiplink" else {"none": True}] for n, v in q["h"] if n.lower() != "content-length"]
            q["body"] = codes(q["body"])
            if "path" in q:
                q["path"] = codes(q["path"])
    run_scripts(ctx, "LinkTrace", scripts, parallel=.3, post=post, need=["filter_http_rewrite.cpp", "html_parser.cpp"])
