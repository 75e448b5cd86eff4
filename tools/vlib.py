"""Shared machinery of the checks: TLC runs, trace batches, evidence, verdicts."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as B
from build import REPO, build_harness, build_lib, BuildError

TLA_JAR = "/opt/veriftools/tla/tla2tools.jar"
TLA_DEPS = "/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(VERIF, "spec")


class CheckError(Exception):
    """The check itself could not be carried out (exit 2)."""
    out = None


class TLCResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.completed = "Model checking completed" in out or "Finished in" in out
        self.violated = bool(re.search(
            r"Error: (Invariant|Action property|Temporal properties|Property) ?.* ?(is|was|were) violated|"
            r"Temporal properties were violated|Error: Deadlock reached|"
            r"Error: The postcondition|Error: Evaluating assumption|Error: Assumption", out))
        self.error = rc != 0 and not self.violated
        self.inv = None
        m = re.search(r"Error: (?:Invariant|Action property|Property) (\S+) is violated", out)
        if m:
            self.inv = m.group(1)

    def states(self):
        """the states of the printed counterexample, as text blocks"""
        return re.findall(r"^State \d+:.*?\n(.*?)\n\n", self.out, re.M | re.S)


class Ctx:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random("%s-%d" % (prop, self.seed))
        os.makedirs(os.path.join(VERIF, "tmp"), exist_ok=True)
        self.tmp = tempfile.mkdtemp(prefix=prop + "-", dir=os.path.join(VERIF, "tmp"))
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "events_validated": 0, "samples": []}
        self.assumptions = []
        self.violations = []
        self.known = self._load_known()
        self.known_hit = []

    thorough = property(lambda s: s.tier == "thorough")

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def _load_known(self):
        p = os.path.join(VERIF, "known-findings.json")
        try:
            d = json.load(open(p))
        except FileNotFoundError:
            return []
        return [k for k in d.get("known", []) if k["property"] == self.prop]

    # ------------------------------------------------------------ files
    def path(self, name):
        return os.path.join(self.tmp, name)

    def write_ndjson(self, name, rows):
        p = self.path(name)
        with open(p, "w") as f:
            for r in rows:
                f.write(json.dumps(r, separators=(",", ":")))
                f.write("\n")
        return p

    # ------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, env=None, workers="auto", args=(), timeout=800,
            heap="6g", dfs=False, gen=False):
        """Runs TLC on spec/<module>.tla with spec/<cfg>.cfg."""
        cfg = cfg or module
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.tmp)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
               "-Djava.io.tmpdir=" + meta]
        if dfs:
            cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd += ["-cp", TLA_JAR + ":" + TLA_DEPS, "tlc2.TLC", "-nowarning",
                "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE",
                "-config", os.path.join(SPEC, cfg + ".cfg"), *args,
                os.path.join(SPEC, module + ".tla")]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors="replace", env=e, cwd=SPEC, timeout=timeout)
            rc, out = r.returncode, r.stdout
        except subprocess.TimeoutExpired as x:
            o = x.stdout or b""
            raise CheckError("TLC timeout on %s/%s:\n%s" % (
                module, cfg, (o.decode(errors="replace") if isinstance(o, bytes) else o)[-2000:]))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        res = TLCResult(rc, out)
        if os.environ.get("VERIF_DEBUG"):
            print(out[-3000:])
        if res.error:
            x = CheckError("TLC failed on %s/%s (rc %d):\n%s" % (module, cfg, rc, out[max(0, out.find("Error:")):][:1500] + "\n...\n" + out[-1500:]))
            x.out = out
            raise x
        return res

    def model_check(self, module, cfg=None, **kw):
        """The specification itself must satisfy its properties; a failure here
        is an error of the check, not of the code."""
        res = self.tlc(module, cfg, **kw)
        if res.violated:
            raise CheckError("specification %s/%s violates its own property:\n%s" % (
                module, cfg, res.out[-5000:]))
        self.cov["states"] += res.distinct
        self.cov["transitions"] += res.generated
        self.cov.setdefault("model_runs", []).append(
            {"spec": module, "cfg": cfg or module, "distinct_states": res.distinct,
             "generated": res.generated})
        return res

    def generate(self, module, cfg, tag="GEN", **kw):
        """Behaviours printed by the specification with PrintT(<<"GEN", ToJson(x)>>)."""
        res = self.tlc(module, cfg, **kw)
        if res.violated:
            raise CheckError("generator %s/%s failed:\n%s" % (module, cfg, res.out[-3000:]))
        self.cov["states"] += res.distinct
        self.cov["transitions"] += res.generated
        out = []
        for m in re.finditer(r'^<<"%s", "(.*)">>$' % tag, res.out, re.M):
            out.append(json.loads(json.loads('"' + m.group(1) + '"')))
        return out

    # ------------------------------------------------------------ verdicts
    def sample(self, x, n=3):
        if len(self.cov["samples"]) < n:
            s = json.dumps(x)
            self.cov["samples"].append(x if len(s) < 1500 else s[:1500] + "...")

    def match_known(self, what):
        for k in self.known:
            if re.search(k["match"], what, re.S):
                return k
        return None

    def violation(self, what, replay):
        """what: text of the failing history; replay: JSON-able reproduction."""
        k = self.match_known(what)
        if k:
            if k not in self.known_hit:
                self.known_hit.append(k)
            return
        d = os.path.join(VERIF, "build", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations) + 1))
        with open(p, "w") as f:
            json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier,
                       "what": what, "replay": replay}, f, indent=1)
        self.violations.append((p, what))

    # ------------------------------------------------------------ traces
    def validate(self, module, traces, cfg=None, chunk=20000, det=True, env=None,
                 describe=None, workers=None, confirm=None, timeout=800, dfs=False):
        """traces: list of {"ops": [...], ...}.  TLC checks that each is a
        behaviour of the trace specification.  confirm(trace) re-records a
        rejected trace from the real code; only a repeated rejection counts."""
        bad = []
        n0 = len(traces)
        chunks = [traces[i:i + chunk] for i in range(0, len(traces), chunk)]
        def run(ch, name):
            """-> TLC result, rejected (index, event); an event for which the
            specification has no meaning at all (TLC cannot evaluate it)
            counts as rejected"""
            idx = list(range(1, len(ch) + 1))
            odd = []
            while True:
                p = self.write_ndjson(name, [ch[i - 1] for i in idx])
                e = dict(env or {})
                e["TRACE"] = p
                e["NTRACE"] = str(len(idx))
                args = ["-continue"] if det else []
                try:
                    r = self.tlc(module, cfg, env=e, workers=workers or ("auto" if det else 1),
                                 args=args, timeout=timeout, dfs=dfs)
                except CheckError as x:
                    m = re.findall(r"^/\\ t = (\d+)$", x.out or "", re.M)
                    l = re.findall(r"^/\\ l = (\d+)$", x.out or "", re.M)
                    if not m or not l or "error occurred when TLC was evaluating" not in x.out or len(odd) > 5:
                        raise
                    odd.append((idx[int(m[-1]) - 1], int(l[-1])))
                    idx = [i for i in idx if i != odd[-1][0]]
                    if idx:
                        continue
                    r = TLCResult(0, "")
                finally:
                    os.unlink(p)
                rej = [(idx[i - 1], q) for i, q in self._rejected(r, ch)]
                return r, sorted(rej + odd)
        for ci, ch in enumerate(chunks):
            r, rej = run(ch, "trace%d.ndjson" % ci)
            self.cov["states"] += r.distinct
            self.cov["transitions"] += r.generated
            if rej:
                # once more from the implementation, if possible: shows that it
                # can be reproduced.  A hang must be confirmed (load), for the
                # rest the recording stands by itself.
                sub = [ch[i - 1] for i, _ in rej[:10]]
                if confirm:
                    sub2 = [confirm(t) for t in sub]
                else:
                    sub2 = sub
                r2, rej2 = run(sub2, "retrace.ndjson")
                for i, q in rej2:
                    t2 = dict(sub2[i - 1])
                    t2.setdefault("name", sub[i - 1].get("name", "trace"))
                    bad.append((t2, q))
                if not rej2:
                    for (i, q) in rej[:10]:
                        t = ch[i - 1]
                        if any(o.get("op") == "hang" for o in t["ops"]):
                            self.cov["unconfirmed_hangs"] = self.cov.get("unconfirmed_hangs", 0) + 1
                        else:
                            bad.append((dict(t, name=t.get("name", "trace") + " (not repeated)"), q))
        self.cov["traces_validated_against_impl"] += n0 - len(bad)
        self.cov["events_validated"] += sum(len(t["ops"]) for t in traces)
        for t in traces[:2]:
            self.sample(t)
        for t, p in bad[:10]:
            ops = t["ops"]
            at = ops[p - 1] if 1 <= p <= len(ops) else None
            what = "%s: implementation history rejected by %s at event %d: %s" % (
                t.get("name", "trace"), module, p, json.dumps(at)[:1500])
            if describe:
                what += " | " + describe(t, p)
            self.violation(what, {"trace": t, "rejected_at": p})
        return not bad

    def _rejected(self, r, ch):
        """Trace specs print <<"REJECTED", traceIndex, position>>."""
        out = {}
        for m in re.finditer(r'<<"REJECTED", (\d+), (\d+)>>', r.out):
            i, p = int(m.group(1)), int(m.group(2))
            out[i] = max(p, out.get(i, 0))
        if r.violated and not out:
            raise CheckError("trace spec failed without a rejection:\n" + r.out[-3000:])
        return sorted(out.items())

    # ------------------------------------------------------------ harness runs
    def run(self, exe, args=(), stdin=None, env=None, timeout=300):
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99"
        e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=98"
        e["YAZ_LOG"] = "none"
        e.update(env or {})
        try:
            r = subprocess.run([exe, *args], input=stdin, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, text=True, errors="replace",
                               env=e, timeout=timeout, cwd=self.tmp)
            return r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired as x:
            o = x.stdout or b""
            er = x.stderr or b""
            dec = lambda b: b.decode(errors="replace") if isinstance(b, bytes) else b
            return -999, dec(o), dec(er)

    def finish(self):
        shutil.rmtree(self.tmp, ignore_errors=True)
        self.cov["known_findings"] = [k["what"] for k in self.known_hit]
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed,
              "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        if not self.cov["samples"]:
            self.cov["samples"] = ["(model only)"]
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        for p, what in self.violations:
            print("what: " + what[:2000])
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        print("%s %s: %s (%.1fs) states=%d traces=%d events=%d" % (
            self.prop, self.tier, "VIOLATED" if self.violations else "ok",
            time.time() - self.t0, self.cov["states"],
            self.cov["traces_validated_against_impl"], self.cov["events_validated"]))
        return 1 if self.violations else 0


def main(prop, fn, level="model_checking"):
    ctx = Ctx(prop, level)
    try:
        fn(ctx)
        rc = ctx.finish()
    except (CheckError, BuildError) as e:
        print("ERROR %s: %s" % (prop, e))
        shutil.rmtree(ctx.tmp, ignore_errors=True)
        rc = 2
    except Exception:
        traceback.print_exc()
        shutil.rmtree(ctx.tmp, ignore_errors=True)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
