"""frontend_net (C41)"""
import fnmatch, re
from filt import J, hexs, run_scripts, init, search, present, scan, directive

PEERS = {"tcp:10.0.0.1": "10.0.0.1", "tcp:10.0.0.2": "10.0.0.2", "ssl:10.0.1.1": "10.0.1.1", "tcp:::1": "::1", "tcp:::ffff:10.0.0.1": "::ffff:10.0.0.1", "-": "unknown", "local": "local"}
PATS = ["10.0.0.1", "10.0.0.*", "::1", "*", "", "10.0.1.1 ::1", "9.*", "unknown", "*.1"]


def matches(pat, peer):
    l = [x for x in pat.split(" ") if x]
    return not l or any(fnmatch.fnmatchcase(peer, x) or (":" not in x and peer.startswith("::ffff:") and fnmatch.fnmatchcase(peer[7:], x)) for x in l)


def config(r):
    p = {"total": [], "max": [], "http": [], "tmo": [], "stat": "", "threads": 5, "maxthreads": 5, "peer": PEERS}
    ports = r.choice([["@:9000"], ["@:9000", "unix:x"], ["@:9000"]])
    x, p["ports"] = [], {}
    for a in ports:
        route = r.choice(["", "", "other"]) if len(ports) > 1 else ""
        p["ports"][a] = "b2" if route else "main"
        at = ' route="%s"' % route if route else ""
        if r.random() < .2:
            at += ' max_recv_bytes="100000"'
        x.append('<port%s port="%s"/>' % (at, a) if r.random() < .3 else "<port%s>%s</port>" % (at, a))
    if r.random() < .8:
        p["threads"] = p["maxthreads"] = r.choice([1, 1, 2, 3, 7])
        x.append("<threads>%d</threads>" % p["threads"])
    if r.random() < .4:
        m = r.choice([1, 2, 4, 8])
        p["maxthreads"] = max(p["threads"], m)
        x.append("<max-threads>%d</max-threads>" % m)
    if r.random() < .1:
        x.append("<stack-size>1024</stack-size>")

    def rules(prob, key, name, vals):
        for _ in range(r.choice([1, 1, 2, 3]) if r.random() < prob else 0):
            pat, v = r.choice(PATS), r.choice(vals)
            p[key].append({"m": [y for y in PEERS.values() if matches(pat, y)], "v": v})
            x.append('<%s%s%s>%d</%s>' % (name, ' ip="%s"' % pat if pat or r.random() < .5 else "", ' verbose="%d"' % r.randint(0, 2) if r.random() < .3 else "", v, name))
    rules(.3, "total", "connect-total", [0, 1, 1, 2])
    rules(.3, "max", "connect-max", [0, 1, 2, 3])
    rules(.4, "http", "http-req-max", [0, 1, 2, 3])
    rules(.5, "tmo", "timeout", [1, 2, 5, 30, 400])
    if r.random() < .3:
        p["stat"] = "/fn_stat"
        if r.random() < .5:
            x.append("<message>FN</message>")
        if len(x) == 0 or "<message>FN</message>" not in x or r.random() < .5:
            p["stat"] = r.choice(["/fn_stat", "/s"])
            x.append("<stat-req>%s</stat-req>" % p["stat"])
    ok = True
    if r.random() < .02:
        ok = False
        x.insert(r.randrange(len(x) + 1), r.choice(["<threads>0</threads>", "<max-threads>-1</max-threads>", "<stack-size>-1</stack-size>", "<bad/>"]))
    p["ok"] = ok
    t = '<metaproxy version="1.0" xmlns="http://indexdata.com/metaproxy"><start route="start"/><routes><route id="start"><filter type="frontend_net">%s</filter>' \
        '<filter type="bk"><name>main</name></filter></route><route id="other"><filter type="bk"><name>b2</name></filter></route></routes></metaproxy>' % "".join(x)
    return t, p


def script(r):
    t, p = config(r)
    s = ["trace %d %d" % (r.randrange(1 << 30), r.choice([0, 1, 1, 2])), "config " + hexs(t), "params " + J(p), 'bk main {"hits":3}', 'bk b2 {"hits":2}']
    s.append("run")
    n, ref = 0, 0
    peers = r.sample(sorted(PEERS), r.choice([1, 1, 2, 3]))
    names = []

    def bkdo():
        y = r.random()
        d = directive(r, .2) if y < .3 else {}
        y = r.random()
        if y < .15:
            d = {"act": "none"}
        elif y < .25:
            d = {"act": "drop"}
        elif y < .32:
            d = {"act": "close"}
        elif y < .37:
            d = {"thenclose": True}
        if r.random() < .4:
            d["wait"] = r.choice([1, 200, 1000, 3000, 61000])
        return d
    web = r.random()
    for _ in range(r.randint(2, 14)):
        y = r.random()
        if not names or y < .2:
            n += 1
            names.append("c%d" % n)
            s.append("conn c%d %s %s" % (n, r.choice(sorted(p["ports"])), r.choice(peers)))
            y = 1
        c = r.choice(names[-3:])
        for _ in range(r.choice([1, 1, 1, 2, 3, 4])):
            ref += 1
            if r.random() < web:
                q = {"t": "http", "path": "/r%d" % ref, "h": []}
                if p["stat"] and r.random() < .15:
                    q["path"] = p["stat"]
                if r.random() < .2:
                    q["h"].append(["X-Forwarded-For", r.choice(["1.2.3.4", "5.6.7.8"])])
            else:
                q = r.choice([init(r), search(r, ["D"]), search(r, ["D"]), present(r), scan(r, ["D"]), {"t": "close"}])
                q["ref"] = "r%d" % ref
            s.append("send %s %s" % (c, J(q)))
            if r.random() < .4:
                s.append("push %s %s" % (r.choice(["main", "main", "b2"]), J(bkdo())))
        y = r.random()
        if y < .12:
            s.append("hang " + c)
        elif y < .15:
            s.append("junk " + c)
        elif y < .45:
            s.append("pause %d" % r.choice([0, 1, 100, 999, 1000, 1001, 2000, 5000, 29999, 61000, 300000, 400000]))
        elif y < .6:
            s.append("settle")
        elif y < .62:
            s.append("signal HUP")
        elif y < .65:
            s.append("signal USR1")
            break
    if r.random() < .5:
        s.append("settle")
    y = r.random()
    if y < .15:
        s.append("signal TERM")
    else:
        if y < .6:
            for c in names:
                if r.random() < .7:
                    s.append("hang " + c)
        s.append("settle")
        s.append("signal USR1")
    return s


def post(e):
    if e["op"] == "sent":
        e["stat"] = False
        b = e["r"].get("body", "")
        m = re.search(r'<responses frequency="(\d+)">', b)
        if m:
            k = re.search(r'<thread_info busy="(-?\d+)" total="(\d+)"', b)
            e.update(stat=True, freq=int(m.group(1)), busy=int(k.group(1)), total=int(k.group(2)))
            e["r"]["body"] = "report"
            e["r"]["h"] = []


def frontend(ctx):
    ctx.model_check("FrontMC", ctx.pick("FrontMC", "FrontMCT"))
    r = ctx.rng
    run_scripts(ctx, "FrontTrace", [script(r) for _ in range(ctx.pick(2500, 20000))], harness="h_front", post=post,
                need=["filter_frontend_net.cpp", "thread_pool_observer.cpp"])
