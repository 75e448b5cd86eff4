"""query_rewrite, record_transform: queries and records by stylesheets."""
from filt import J, XE, bk, during, flexml, goodbye, hexs, init, run_scripts, scan, search, present

XSL = '<xsl:stylesheet version="1.0" xmlns:xsl="http://www.w3.org/1999/XSL/Transform">%s</xsl:stylesheet>'
COPY = '<xsl:template match="@*|node()"><xsl:copy><xsl:apply-templates select="@*|node()"/></xsl:copy></xsl:template>'
LOWER, UPPER = "abcdefghijklmnopqrstuvwxyz", "ABCDEFGHIJKLMNOPQRSTUVWXYZ"


def pass_of(rule):
    """Templates, in a mode of their own, for a rule on queries."""
    k = rule["k"]
    if k == "map":
        return "".join('<xsl:template match="attr[@type=1][@value=\'%s\']/@value"><xsl:attribute name="value">%s</xsl:attribute></xsl:template>' % m for m in rule["m"].items())
    if k == "drop":
        return '<xsl:template match="attr[@type=%d]"/>' % rule["n"]
    if k == "upper":
        return '<xsl:template match="term/text()"><xsl:value-of select="translate(., \'%s\', \'%s\')"/></xsl:template>' % (LOWER, UPPER)
    if k == "and":
        return '<xsl:template match="rpn"><rpn><xsl:copy-of select="@*"/><operator type="and"><xsl:apply-templates/><apt><attr type="1" value="31"/><term type="general">2000</term></apt></operator></rpn></xsl:template>'
    if k == "swap":
        return '<xsl:template match="operator"><operator><xsl:copy-of select="@*"/><xsl:apply-templates select="*[2]"/><xsl:apply-templates select="*[1]"/></operator></xsl:template>'
    if k == "left":
        return '<xsl:template match="operator"><xsl:apply-templates select="*[1]"/></xsl:template>'
    return {"nothing": '<xsl:template match="/"/>',
            "other": '<xsl:template match="query"><quary><xsl:apply-templates/></quary></xsl:template>',
            "noterm": '<xsl:template match="term"/>',
            "badop": '<xsl:template match="apt"><operator type="xor"><apt><term>a</term></apt><apt><term>b</term></apt></operator></xsl:template><xsl:template match="rset"><zset/></xsl:template>',
            "one": '<xsl:template match="rpn"><rpn><operator type="and"><apt><term>x</term></apt></operator></rpn></xsl:template>',
            "noattr": '<xsl:template match="rpn"><rpn><apt><attr value="1"/><term>x</term></apt></rpn></xsl:template>',
            "text": '<xsl:template match="/">@attr 1=4 x</xsl:template>',
            "norpn": '<xsl:template match="rpn"/>',
            "halt": '<xsl:template match="/"><xsl:message terminate="yes">no</xsl:message></xsl:template>',
            "id": ""}[k]


def tree_query(r, depth, words):
    x = r.random()
    if depth and x < .5:
        return "@%s %s %s" % (r.choice(["and", "or", "not"]), tree_query(r, depth - 1, words), tree_query(r, depth - 1, words))
    if x < .58:
        return "@set " + r.choice(["A", "b1"])
    a = "".join("@attr %s " % r.choice(["1=4", "1=5", "1=title", "1=1003", "2=3", "3=1", "4=6", "Bib-1 1=4", "1.2.840.10003.3.2 1=4"]) for _ in range(r.choice([0, 0, 1, 1, 2, 3])))
    t = r.choice(["", "", "", "@term numeric ", "@term string "])
    if "numeric" in t:
        return a + t + str(r.choice([0, 1, 12, 2000, -3]))
    return a + t + '"%s"' % r.choice(words).replace("\\", "\\\\").replace('"', '\\"')


def u8(s):
    return s.encode("utf-8").decode("latin-1")


def query_rewrite(ctx):
    ctx.model_check("RewriteMC", ctx.pick("RewriteMC", "RewriteMCT"))
    r = ctx.rng
    scripts = []
    good = ["a", "water", "Blå", "x y", " z ", "", "ß€", "<&>\"'", "a\\b", "日本", "😀", "ÿ", "0", "a\tb"]
    raw = [u8(x) for x in good] + ["\xe5", "Bl\xe5", "a\xc3", "\xff", "\xc3\x28", "\x80", "\xe2\x82"]
    rules = [{"k": "id"}, {"k": "map", "m": {"4": "1003"}}, {"k": "map", "m": {"4": "title", "title": "4"}}, {"k": "map", "m": {"5": "4", "4": "5"}},
             {"k": "drop", "n": 2}, {"k": "drop", "n": 1}, {"k": "upper"}, {"k": "swap"}, {"k": "left"},
             {"k": "and", "t": {"k": "apt", "a": [["", 1, "31"]], "tt": "general", "term": [50, 48, 48, 48]}}]
    bad = [{"k": k} for k in ("nothing", "other", "noterm", "badop", "one", "noattr", "text", "norpn", "halt")]
    import os
    os.makedirs(ctx.path("qr"), exist_ok=True)
    files = {}

    def sheet(rs):
        key = J(rs)
        if key not in files:
            files[key] = ctx.path("qr/s%d.xsl" % len(files))
            with open(files[key], "w") as h:
                h.write(XSL % (COPY + pass_of(rs)))
        return files[key]
    for _ in range(ctx.pick(2500, 25000)):
        p = {"rules": [], "from": "UTF-8", "to": ""}
        inner, first = "", ""
        chain = []
        for part in range(r.choice([1, 1, 1, 2])):       # one filter, or one after the other
            x = r.random()
            c = ""
            if x < .75:
                ru = r.choice(rules) if r.random() < .85 else r.choice(bad)
                p["rules"].append(ru)
                c += '<xslt stylesheet="%s"/>' % XE(sheet(ru))
            chain.append(c)
        if r.random() < .5:
            p["from"], p["to"] = r.choice(["UTF-8", "UTF-8", "ISO-8859-1", "", "nonesuch"]), r.choice(["ISO-8859-1", "ISO-8859-1", "UTF-8", "nonesuch"])
            chain[-1] += "<charset%s%s/>" % (' from="%s"' % p["from"] if p["from"] != "UTF-8" or r.random() < .5 else "", ' to="%s"' % p["to"])
        words = [x for x in raw if x or not p["to"]] if not p["rules"] and (p["from"] != "UTF-8" or not p["to"]) else [u8(x) for x in good if x or not p["to"]]   # the library refuses to convert empty terms, and is at a loss with wrong UTF-8
        s = ["trees 1", "config " + hexs(flexml({"start": ['<filter type="query_rewrite">%s</filter>' % c for c in chain] + [bk("main")]})), "params " + J(p),
             "bk main " + J({"hits": r.choice([0, 3, 10])})]

        def rq():
            x = r.random()
            if x < .04 and not p["rules"]:
                return search(r, ["D"], cql="dc.title=x")
            if x < .8:
                return search(r, r.choice([["D"], ["D", "E"]]), q=r.choice(["", "", "", "@attrset 1.2.840.10003.3.2 ", "@attrset Exp-1 "]) + tree_query(r, r.choice([0, 1, 1, 2, 3]), words))
            return r.choice([init(r), present(r), scan(r, ["D"]), {"t": "close"}, {"t": "http", "path": "/"}, {"t": "none"}])
        for _ in range(r.randint(1, 8)):
            s.append("req %s %s" % (r.choice("12"), J(rq())))
        goodbye(r, s, "12", .5)
        scripts.append(s)

    def post(e):
        if isinstance(e.get("r"), dict) and e["r"]["t"] == "search":
            e["r"].pop("q", None)
    run_scripts(ctx, "RewriteTrace", scripts, parallel=.3, post=post, need=["filter_query_rewrite.cpp", "util.cpp"])


# ------------------------------------------------------------ record_transform
def unwrap(v):
    """What a record's text was at first, and what the stylesheets put around it."""
    import re
    w = []
    t = re.sub(r"^<\?xml[^>]*\?>\n?", "", v)
    while True:
        m = re.match(r'<w n="(\w+)">(.*)</w>\n?$', t, re.S)
        if not m:
            break
        w.append(m.group(1))
        t = m.group(2)
    if t.startswith("<r"):
        return {"b": t.strip(), "w": w, "xml": not t.startswith("<r><b")}
    return {"b": v, "w": [], "xml": False}


def record_transform(ctx):
    ctx.model_check("RecordMC", ctx.pick("RecordMC", "RecordMCT"))
    r = ctx.rng
    scripts = []
    import os
    os.makedirs(ctx.path("rt"), exist_ok=True)
    files = {}
    OID = {"XML": "1.2.840.10003.5.109.10", "USmarc": "1.2.840.10003.5.10", "SUTRS": "1.2.840.10003.5.101", "OPAC": "1.2.840.10003.5.102", "": ""}

    def sheet(k):
        if k not in files:
            files[k] = ctx.path("rt/%s.xsl" % k)
            body = {"id": COPY, "halt": '<xsl:template match="/"><xsl:message terminate="yes">no</xsl:message></xsl:template>'}.get(
                k, COPY + '<xsl:template match="/"><w n="%s"><xsl:apply-templates/></w></xsl:template>' % k)
            with open(files[k], "w") as h:
                h.write(XSL % body)
        return files[k]
    texts = ["<r><k>a</k></r>", "<r>b &amp; c</r>", "<r/>", "<r><b", "plain", "<r>1</r>", "<r>2</r>"]
    for _ in range(ctx.pick(2500, 25000)):
        els, x = [], ""
        both = r.random() < .15              # conversions that fail beside others that do not
        for _ in range(1 if both else r.choice([0, 1, 1, 2, 2, 3, 4])):
            el = {"syn": r.choice(["XML", "XML", "USmarc", "OPAC" if r.random() < .1 else "XML"]), "name": r.choice(["", "F", "B", "mods", "*" if r.random() < .3 else "F"]), "id": r.choice(["", "", "info:x", "info:y"]),
                  "bsyn": "", "bname": "0", "steps": [], "conv": False}
            if el["syn"] == "OPAC":
                el["syn"] = "USmarc"
            b, conv = "", r.random() < .75
            if both:
                el.update(syn="XML", name="", id="", bsyn="XML", conv=True, steps=r.choice([["a"], ["halt"]]))
            if both or r.random() < .8:
                if not both and r.random() < .7:
                    el["bname"] = r.choice(["F", "B", "full", ""])
                if not both:
                    el["bsyn"] = r.choice(["XML", "XML", "USmarc", "SUTRS"])
                el["conv"] = True
                if conv and not both:
                    el["steps"] = r.choice([[], ["a"], ["a"], ["b"], ["id"], ["a", "b"], ["b", "id", "c"], ["halt"] if r.random() < .3 else ["a"]])
                b = '<backend syntax="%s"%s>%s</backend>' % (el["bsyn"].lower(), ' name="%s"' % el["bname"] if el["bname"] != "0" else "",
                                                            "".join('<xslt stylesheet="%s"/>' % XE(sheet(k)) for k in el["steps"]))
            x += '<retrieval syntax="%s"%s%s>%s</retrieval>' % (el["syn"].lower(), ' name="%s"' % el["name"] if el["name"] else "", ' identifier="%s"' % el["id"] if el["id"] else "", b)
            els.append(el)
        s = ["config " + hexs(flexml({"start": ['<filter type="record_transform"><retrievalinfo>%s</retrievalinfo></filter>' % x, bk("main")]})),
             "params " + J({"els": els, "oid": OID}), "bk main " + J({"hits": r.choice([1, 4, 9]), "texts": [r.choice(texts) for _ in range(r.randint(1, 4))]})]
        if both:
            s[-1] = "bk main " + J({"hits": 9, "texts": ["<r>1</r>", "plain", "<r>2</r>", "<r><b"]})
        esns = ["", "F", "B", "mods", "info:x", "info:y", "zz"]

        def rq():
            x = r.random()
            if both:
                return dict(present(r, sets=("default",), start=r.choice([1, 2, 3, 4]), num=r.choice([1, 2, 3]), syn="xml"), esn="")
            syn = {"syn": r.choice(["xml", "xml", "usmarc", "SUTRS"])} if r.random() < .8 else {}
            if x < .4:
                q = search(r, ["D"], sets=("default", "A"), **syn)
                q.update(ssub=r.choice([0, 0, 1, 5, 20]), lslb=r.choice([0, 1, 2, 10, 21]), mspn=r.choice([0, 1, 3]))
                e = r.choice(esns)
                q.pop("sesn", None), q.pop("mesn", None)
                if r.random() < .7:
                    q["sesn"] = e
                if r.random() < .7:
                    q["mesn"] = e if r.random() < .8 else r.choice(esns)
                return q
            if x < .9:
                q = present(r, sets=("default", "A", "B"), start=r.choice([1, 1, 1, 2, 5]), num=r.choice([1, 1, 2, 3]), **syn)
                q["esn"] = r.choice(esns)
                if r.random() < .1:
                    q["comp"] = "complex"
                    q["esn"] = ""
                return q
            return r.choice([init(r), scan(r, ["D"]), {"t": "close"}, {"t": "http", "path": "/"}, {"t": "none"}])
        odd = [{"act": "raw", "resp": {"t": "presentr", "recs": [{"k": "diag", "code": 3, "db": "D"}, {"v": "<r>x</r>", "syn": "xml", "db": "D"}]}},
               {"act": "raw", "resp": {"t": "searchr", "hits": 4, "recs": [{"v": "<r>x</r>", "syn": "xml", "db": "D"}, {"k": "diag", "code": 3, "db": "D"}, {"v": "x", "syn": "SUTRS", "db": "E"}]}},
               {"act": "raw", "resp": {"t": "presentr", "n": 0, "recs": [{"v": "<r>x</r>", "syn": "xml"}]}},
               {"act": "raw", "resp": {"t": "presentr", "recs": [{"v": "<r>x</r>", "syn": "xml"}, {"v": "plain", "syn": "SUTRS"}, {"v": "", "syn": "xml"}]}},
               {"act": "none"}, {"act": "close"}, {"act": "drop"}, {"act": "diag"}]
        for _ in range(r.choice([0, 0, 2, 6])):
            s.append("push main " + J(r.choice(odd) if r.random() < .4 else {}))
        for c in "12":
            s.append("req %s %s" % (c, J(search(r, ["D"], sets=("default", "A"), ssub=0, lslb=1, mspn=0))))
        for _ in range(r.randint(1, 10)):
            s.append("req %s %s" % (r.choice("12"), J(rq())))
        goodbye(r, s, "12", .5)
        scripts.append(s)

    def post(e):
        if isinstance(e.get("r"), dict):
            for x in e["r"].get("recs", []):
                if x["k"] == "rec":
                    x["v"] = unwrap(x["v"])
                else:
                    x["v"] = {"b": "", "w": [], "xml": False}
                    if e["op"] == "cresp":
                        pass
    run_scripts(ctx, "RecordTrace", scripts, parallel=.3, post=post, need=["filter_record_transform.cpp", "util.cpp"])
