"""Checks of self-contained functions: the specification is a TLA+ operator,
each recorded call an event that must agree with it."""
import itertools, json
from vlib import CheckError, build_harness
from core import parse_traces, crashed


def hexs(s):
    b = s if isinstance(s, bytes) else s.encode("latin-1")
    return b.hex() or "-"


def batches(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def batch_validate(ctx, exe, cases, module, per=40, args=(), name="batch", to_line=hexs, chunk=4000):
    """cases -> lines -> traces of `per` events each."""
    bs = batches(cases, per)

    def record(groups):
        text = "".join("trace\n" + "".join(to_line(c) + "\n" for c in g) + "end\n" for g in groups)
        rc, out, err = ctx.run(exe, args, stdin=text)
        return parse_traces(ctx, rc, out, err)

    tr = record(bs)
    if len(tr) < len(bs) and not crashed(tr):
        raise CheckError("harness lost traces")
    for i, t in enumerate(tr):
        t["name"] = "%s-%d" % (name, i)
    return ctx.validate(module, tr, chunk=chunk,
                        confirm=lambda t: record([bs[int(t["name"].rsplit("-", 1)[1])]])[0])


def html(ctx):
    ctx.model_check("HtmlMC", ctx.pick("HtmlMC", "HtmlMCT"))
    exe = build_harness("h_html", "asan", need=["html_parser.cpp"])
    alpha = "<>/!-a =\"?"
    docs = []
    for n in range(0, ctx.pick(4, 6)):
        docs += ["".join(x) for x in itertools.product(alpha, repeat=n)]
    ctx.cov["exhaustive_documents"] = len(docs)
    r = ctx.rng
    docs += ["".join(r.choice(alpha) for _ in range(r.randint(4, 9))) for _ in range(ctx.pick(8000, 40000))]
    toks = ["<script", "</script", "<SCRIPT", "</Script", ">", "/", " ", "<!--", "-->", "--", "<a", " x=", "\"",
            "'", "b", "<", "=", "</a", "\n", "<?", "<!D", "/>", "\t", "<img", " href=\"u\"", " k='v'", " k=v",
            "<scripts", "</scripty", "\f", "\r", "\xe6", "]]>", "&amp;", "<1", "</1", "<b>", "</b>", "<script>", "</script>"]
    docs += ["".join(r.choice(toks) for _ in range(r.randint(2, 14))) for _ in range(ctx.pick(14000, 80000))]
    # documents around the end of a script element
    st = ["<script", "</script", "</SCRIPT", "</scrip", "</scripts", "<", "/", " ", "  ", "   ", "\n\t", ">", ">", "x", " a", "</script  >",
          "</script\n\n>", "</script >", "</script x>", "</script/>", "<!--", "-->", "</a>", "<b>", "<script src=\"u\">", "<script/>", "\""]
    docs += ["<script" + r.choice([">", " >", " s=x>", "/>", " / >", " /a>"]) + "".join(r.choice(st) for _ in range(r.randint(1, 8)))
             for _ in range(ctx.pick(8000, 40000))]
    ctx.cov["documents"] = len(docs)
    batch_validate(ctx, exe, docs, "HtmlTrace")


def url(ctx):
    ctx.model_check("UrlMC")
    exe = build_harness("h_url", "asan", need=["url_recipe.cpp"])
    r = ctx.rng
    names = ["title", "date", "medium", "author", "md", "m", "d", "-", "md-x", "id", "d-", "description", "mm", "md-md-x"]
    texts = ["", "How to program", "a b  c", "1999", "x/y", "AbaB", "   11224466 ", "no", "100% &<>", "a.b.c", "aaa", "}[", "\\x"]

    def lit(c):
        return "\\" + c if c in "/]}[.*+?()^$\\|{" else c

    def pattern():
        # at least one character must be consumed
        out, must = "", False
        n = r.randint(1, 4)
        grp = r.randint(0, n - 1) if r.random() < .3 else -1
        for i in range(n):
            a = r.choice([".", "\\s", "\\d"] + [lit(c) for c in "aAb2o /.x"] * 2)
            q = r.choice(["", "", "", "+", "*", "?"])
            if i == n - 1 and not must and q in "*?":
                q = "+" if q else ""
            must = must or q in ("", "+")
            out += ("(" if i == grp else "") + a + q + (")" if i == grp else "")
        if r.random() < .1:
            out = "^" + out
        if r.random() < .1:
            out += "$"
        return out, grp >= 0

    def ref():
        s = r.choice("$$%") + "{"
        if r.random() < .95:
            s += r.choice(["", "", "md-"]) + r.choice(names)
        if r.random() < .6:
            p, g = pattern()
            s += "[" + p
            if r.random() < .85:
                s += "/" + "".join(r.choice(["X", "yy", "\\/", "$&", "+", " ", "\\}", "\\]"] + (["$1"] if g else []))
                                   for _ in range(r.randint(0, 3)))
                if r.random() < .6:
                    s += "/" + r.choice(["g", "i", "gi", "ig", "", "x"])
            if r.random() < .95:
                s += "]"
                if r.random() < .1:
                    s += "junk"
        return s + "}"

    def case():
        rec = ""
        for _ in range(r.randint(0, 4)):
            rec += ref() if r.random() < .6 else r.choice(["http://x/", "?q=", "$", "%", "{", "}", "%2", "a", "\\", "$$", "%%"])
        if rec.endswith("}") and r.random() < .1:
            rec = rec[:-1]                  # reference left open
        meta = []
        for _ in range(r.randint(0, 5)):
            meta.append((r.choice("mmmmmux"), r.choice(names), r.choice(texts)))
        return (rec, meta)

    cases = [case() for _ in range(ctx.pick(12000, 100000))]
    al = "${}%[]/a\\"
    for n in range(1, ctx.pick(5, 6)):
        for x in itertools.product(al, repeat=n):
            s = "".join(x)
            # a lone backslash would make the pattern ill-formed
            if "[" in s and ("\\" in s or s.count("[") > 1):
                continue
            cases.append((s, [("m", "a", "a/b")]))
    ctx.cov["recipes"] = len(cases)
    line = lambda c: hexs(c[0]) + "".join(" %s %s %s" % (k, hexs(t), hexs(x)) for k, t, x in c[1])
    batch_validate(ctx, exe, cases, "UrlTrace", to_line=line)


def xmlvalues(ctx):
    exe = build_harness("h_xml", "asan", need=["xmlutil.cpp"])
    r = ctx.rng
    MP, OT = "http://indexdata.com/metaproxy", "http://other.example/"
    texts = ["true", "1", "false", "0", "yes", "TRUE", "true ", " true", "17", "-3", "+4", "  12", "12abc", "abc",
             "0042", "3.9", "- 5", "999999999", "\n7\n", "11", "10", "01", "t", "truetrue"]
    names = ["route", "auth", "id", "type", "x", "rout", "routex"]

    def esc(s):
        return s.replace("&", "&amp;").replace("<", "&lt;").replace('"', "&quot;").replace("\n", "&#10;")

    def node(depth=0, name=None):
        ns = r.choice([MP, MP, MP, OT, ""]) if depth == 0 else ""
        n = {"k": "e", "n": name or r.choice(["filter", "routes", "filters", "x"]), "ns": ns, "x": [], "a": [], "c": []}
        for an in r.sample(names, r.choice([0, 0, 1, 1, 2, 3])):
            n["a"].append({"n": an, "ns": r.choice(["", "", "", OT]),
                           "v": [ord(c) for c in r.choice(["a", "r 1", "start", "x<y", "1", "q\"z"])]})
        if depth < 2:
            last = ""
            for _ in range(r.choice([0, 1, 1, 1, 2, 3, 4])):
                k = r.choice("ttttecdp")
                if k == last and k in "td":    # the parser joins these
                    k = "c"
                last = k
                if k == "e":
                    n["c"].append(node(depth + 1))
                else:
                    n["c"].append({"k": k, "n": "", "ns": "", "a": [], "c": [],
                                   "x": [ord(c) for c in r.choice(texts if k == "t" else ["true", "17"])]})
        return n

    def ser(n, top=True):
        S = lambda x: "".join(map(chr, x))
        if n["k"] == "t":
            return esc(S(n["x"]))
        if n["k"] == "c":
            return "<!--%s-->" % S(n["x"])
        if n["k"] == "d":
            return "<![CDATA[%s]]>" % S(n["x"])
        if n["k"] == "p":
            return "<?pi %s?>" % S(n["x"])
        pre = "m:" if n["ns"] else ""
        s = "<" + pre + n["n"]
        if top:
            s += ' xmlns:m="%s" xmlns:o="%s"' % (n["ns"] or MP, OT)
        for a in n["a"]:
            s += ' %s%s="%s"' % ("o:" if a["ns"] else "", a["n"], esc(S(a["v"])))
        return s + ">" + "".join(ser(c, False) for c in n["c"]) + "</%s%s>" % (pre, n["n"])

    none = {"k": "0", "n": "", "ns": "", "x": [], "a": [], "c": []}
    cases = []
    for _ in range(ctx.pick(16000, 120000)):
        n = node()
        fn = r.choice(["get_text", "attr_text", "get_bool", "get_bool", "get_int", "get_int", "parse_attr", "parse_attr",
                       "get_route", "get_route2", "children", "next", "jump", "is_element", "is_element_mp",
                       "check_element_mp", "check_empty", "is_attribute", "check_attribute"])
        a = []
        if fn == "get_bool":
            a = [r.choice("01")]
        elif fn == "get_int":
            a = [str(r.choice([0, 1, -1, 42]))]
        elif fn == "parse_attr":
            a = r.sample(names, r.randint(1, 6))
        elif fn == "children":
            a = [r.choice(["element", "text", "comment"])]
        elif fn in ("next", "jump"):
            if not n["c"]:
                continue
            a = [r.choice(["element", "element", "text", "comment"]), str(r.randint(1, len(n["c"])))]
        elif fn == "is_element":
            a = [r.choice([MP, OT, ""]), r.choice(["filter", "routes", "filters"])]
        elif fn in ("is_element_mp", "check_element_mp"):
            a = [r.choice(["filter", "routes", "filters"])]
        elif fn in ("is_attribute", "check_attribute"):
            if not n["a"]:
                continue
            i = r.randint(1, len(n["a"]))
            a = [r.choice(["", OT, MP]), r.choice([n["a"][i - 1]["n"], r.choice(names)]), str(i)]
        null = fn in ("get_text", "get_bool", "get_int", "parse_attr", "check_empty", "is_element", "is_element_mp",
                      "check_element_mp") and r.random() < .05
        cases.append((fn, none if null else n, "-" if null else hexs(ser(n)), a))
    line = lambda c: " ".join([c[0], hexs(json.dumps(c[1])), c[2]] + [hexs(x) for x in c[3]])
    ctx.cov["calls"] = len(cases)
    batch_validate(ctx, exe, cases, "XmlTrace", to_line=line)


def util_cases(ctx, kinds, n):
    r = ctx.rng
    pick = r.choice

    def t(s):
        return hexs(s)

    def text(al, lo, hi):
        return "".join(pick(al) for _ in range(r.randint(lo, hi)))

    def null(s, p=.3):
        return "null" if r.random() < p else t(s)

    def pqf(d=0):
        if d < 3 and r.random() < .45:
            return "%s %s %s" % (pick(["@and", "@or", "@not"]), pqf(d + 1), pqf(d + 1))
        return "".join("@attr %d=%d " % (pick([1, 2, 4]), pick([4, 7, 1016])) for _ in range(pick([0, 0, 1]))) + pick(["a", "water", "x1", "Zz"])

    def ip():
        v = pick(["", "::ffff:"] * 2 + ["::1", "1:", "::fff:"]) + ".".join(pick(["1", "12", "127", "0", "254"]) for _ in range(pick([4, 4, 4, 1, 2, 3])))
        if r.random() < .3:
            v = text("12.:f?*", 0, 7)

        def pat():
            x = pick([v, v[7:], v.replace("1", "?"), v[:r.randint(0, len(v))] + "*", "*" + v[r.randint(0, len(v)):], "*", "127.*", "10.0.0.1", "::1", "*.1*"])
            return text("12.:f?*", 0, 6) if r.random() < .3 else x.replace(" ", "")
        return "ip %s %s" % (t(pick([" ", "  ", " "]).join(pat() for _ in range(pick([0, 1, 1, 2, 3]))) + pick(["", "", " "])), t(v))

    def dbs():
        return [text("aAbZz1.Z", 0, 3) for _ in range(pick([0, 1, 1, 2, 3]))]

    def match():
        a = dbs()
        b = [x.swapcase() if r.random() < .6 else x for x in a] if r.random() < .6 else dbs()
        if r.random() < .2:
            b = b + dbs()
        return "match %d %s" % (len(a), " ".join(map(t, a + b)))

    def mem():
        a = text("ab\0\xff", 0, 4)
        b = a if r.random() < .3 else a[:r.randint(0, len(a))] + text("ab\0\xff", 0, 3)
        return "mem %s %s" % (t(a), t(b))

    def uri():
        return "".join(chr(r.choice([32, 43, 37, 47, 38, 61, 126, 95, 45, 46, r.randint(1, 255), r.randint(1, 255)])) for _ in range(r.randint(0, 8)))

    def dec():
        return "dec " + t("".join(pick(["%%%02x" % r.randint(1, 255), "%%%02X" % r.randint(1, 255), "+", "a", "/", ".", "%00", "\xe6", "%2"]) for _ in range(r.randint(0, 7))))

    def zurl():
        if r.random() < .1:
            return "zurl " + t("unix:" + pick(["/a", "a/b.c", "s"]) + pick(["", ":", ":" + text("aB+/1", 1, 6)]))
        return "zurl " + t(pick(["", "", "tcp:", "http://", "ssl:", "://", "a/b://"]) + text("ab:/.@1", 0, 5) + pick(["", "", "/"]) + text("aB+/1", 0, 7))

    def hdr():
        ns = ["Host", "host", "Content-Type", "X", "content-type", "Hos", "HOST"]
        return "hdr %s %s" % (t(pick(ns)), " ".join("%s %s" % (t(pick(ns)), t(pick(["a", "b c", "", "x"]))) for _ in range(r.randint(0, 4))))

    def esn():
        return "esn %s %s" % (pick(["null", "sg", "sg", "sdb", "ce", "ce", "cx", "cn", "c0"]), t(pick(["F", "B", "brief"])))

    def pig():
        big = [0, 1, 2, 3, 5, 10, 2147483647]
        return "pig %d %d %d %d %s %s" % (pick(big), pick(big), pick(big), pick([0, 0, 1, 2, 3, 4, 5, 6, 9, 10, 11, 100]), null(pick("FB")), null(pick("FBX")))

    def vh():
        us = ["%s:%d:%s" % (pick(["vh", "vh", "vh", "other", "none"]), pick([1, 1, 2, 2, 3, 4]), t(text("ab", 1, 2))) for _ in range(pick([0, 1, 2, 3, 4, 6]))]
        a = [text("xy", 1, 2) for _ in range(pick([1, 1, 2, 3]))]
        return "vh %s %s -- %s" % (pick(["get", "remove", "remove", "set", "set", "set1"]), " ".join(us), " ".join(map(t, a)))

    def ident():
        return t(text("ab\0\xff", 0, 5))

    def ref():
        return "ref %d %d %s %d %d %s" % (r.randint(0, 25), r.random() < .8, ident(), r.randint(1, 25), r.random() < .3, ident())

    def mk():
        return "mk %s %d %d %s %d %s" % (pick(["close", "initr", "searchr", "presentr", "scanr"]), r.randint(0, 25), r.random() < .8,
                                         t(text("abz019", 1, 6)), pick([0, 0, 1, 2, 13, 30, 1014, 109]), t(pick(["", "why", "a b", "x" * 300])))

    def diag():
        return pick(["diag %s" % pick("23"), "idiag %d" % (r.random() < .8)]) + " %d %s" % (pick([1, 2, 13, 1014]), t(pick(["", "why", "x y"])))

    def http():
        how, body = pick([("body", "a\0b"), ("body", "<x>"), ("det", "hello"), ("det", ""), ("body", "y" * 2000), ("body", ""), ("plain", "")])
        return "http %s %s %d %s %s" % (t(pick(["1.0", "1.0", "1.1", "1.1", "1.2", "2.0", "0.9"])),
                                        null(pick(["Keep-Alive", "keep-alive", "close", "Close", "CLOSE", "KEEP-ALIVE", "upgrade", "", "clos", "closed"]), .25),
                                        pick([200, 200, 404, 500, 302, 400]), t(body), how)

    def plain():
        ls = []
        for _ in range(pick([0, 1, 2, 3, 5, 9])):
            z = r.random()
            if z < .1:
                ls.append("")
            elif z < .2:
                ls.append("#" + text("a b", 0, 5))
            elif z < .3:
                ls.append(pick([" ", "\t"]) + text("a b", 0, 5))
            elif z < .45:
                ls.append(text("ab \t", 240, 270))
            elif z < .5:
                ls.append("w" * pick([253, 254, 255, 256, 600, 2000]))
            else:
                ls.append(pick([" ", "\t", "  "]).join(text("ab#.", 1, 4) for _ in range(r.randint(1, 4))) + pick(["", " "]))
        return "plain " + t("\n".join(ls) + pick(["\n", "\n", ""]))

    def query():
        q = pqf()
        w = q.split(" ")
        if r.random() < .2:
            w.insert(r.randint(0, len(w)), pick(["@and", "x"]))
        elif r.random() < .15:
            w.pop(r.randrange(len(w)))
        # an attribute where a value is missing is another matter
        for i, x in enumerate(w):
            if x == "@attr" and (i + 1 >= len(w) or "=" not in w[i + 1]):
                w = q.split(" ")
                break
            if "=" in x and (i == 0 or w[i - 1] != "@attr"):
                w = q.split(" ")
                break
        # attributes belong to terms here
        for i, x in enumerate(w):
            if "=" in x and i + 1 < len(w) and w[i + 1] in ("@and", "@or", "@not"):
                w = q.split(" ")
                break
        return "pqf " + t(" ".join(w))

    fs = dict(ip=ip, norm=lambda: "norm " + t(text("aAzZ@[`{1\xc5\0", 0, 6)), match=match, mem=mem, enc=lambda: "enc " + t(uri()), dec=dec, zurl=zurl,
              hdr=hdr, esn=esn, pig=pig, vh=vh, ref=ref, mk=mk, diag=diag, http=http, plain=plain, pqf=query)
    return [fs[k]() for k in kinds for _ in range(n)]


def answers(ctx):
    exe = build_harness("h_util", "asan", need=["util.cpp", "package.cpp"])
    n = ctx.pick(4000, 30000)
    cases = util_cases(ctx, ["ref", "mk", "diag", "http", "pig", "esn"], n)
    # every request type with every answer
    cases += ["mk %s %d %d 6162 %d 78" % (w, s, h, e) for w in ["close", "initr", "searchr", "presentr", "scanr"] for s in range(26) for h in (0, 1) for e in (0, 2)]
    cases += ["ref %d %d 6162 %d %d 6364" % (s, a, d, b) for s in range(26) for d in range(1, 26) for a in (0, 1) for b in (0, 1)]
    ctx.cov["calls"] = len(cases)
    batch_validate(ctx, exe, cases, "UtilTrace", to_line=str)


def names(ctx):
    exe = build_harness("h_util", "asan", need=["util.cpp", "plainfile.cpp"])
    n = ctx.pick(3000, 25000)
    cases = util_cases(ctx, ["ip", "ip", "norm", "match", "mem", "enc", "dec", "zurl", "hdr", "vh", "plain", "pqf"], n)
    ctx.cov["calls"] = len(cases)
    batch_validate(ctx, exe, cases, "UtilTrace", to_line=str)
