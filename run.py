#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--replay FILE]

Decides one property: model-checks the TLA+ specification, exports behaviours from it, replays them into the
real code built from /repo's working tree, records executions of the real code and checks them against the
specification.  Exit 0 held / 1 VIOLATION / 2 the machinery itself failed."""
import concurrent.futures as cf, json, os, re, subprocess, sys, time, shutil, hashlib, tempfile, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import checks

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

class ToolError(Exception):
    pass

def tla_val(v):
    if isinstance(v, bool): return "TRUE" if v else "FALSE"
    if isinstance(v, int): return str(v)
    if isinstance(v, str): return '"%s"' % v
    if isinstance(v, dict): assert not v; v = set()
    if isinstance(v, (set, frozenset, list)): return "{" + ", ".join(sorted(tla_val(x) for x in v)) + "}"
    raise ValueError(v)

def write_cfg(path, spec, consts, invariants=(), properties=(), view=None, action_constraint=None, constraint=None, symmetry=None, postcondition=None):
    L = ["SPECIFICATION " + spec]
    if consts:
        L.append("CONSTANTS")
        for k, v in consts.items():
            L.append("  %s = %s" % (k, v[1:] if isinstance(v, str) and v.startswith("=") else tla_val(v)))
    if invariants: L.append("INVARIANTS " + " ".join(invariants))
    if properties: L.append("PROPERTIES " + " ".join(properties))
    if view: L.append("VIEW " + view)
    if action_constraint: L.append("ACTION_CONSTRAINT " + action_constraint)
    if constraint: L.append("CONSTRAINT " + constraint)
    if symmetry: L.append("SYMMETRY " + symmetry)
    if postcondition: L.append("POSTCONDITION " + postcondition)
    L.append("CHECK_DEADLOCK FALSE")
    open(path, "w").write("\n".join(L) + "\n")

class Run:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.work = os.path.join(V, "work", "%s-%s-%d" % (pid, tier, os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        self.replays = os.path.join(V, "work", "replay")
        os.makedirs(self.replays, exist_ok=True)
        self.states = self.trans = self.validated = self.steps = 0
        self.samples, self.detail, self.violations, self.known = [], [], [], []
        self.n = 0

    def uid(self, name):
        self.n += 1
        return os.path.join(self.work, "%03d-%s" % (self.n, name))

    def tlc(self, module, cfg, workers=1, extra=(), timeout=800, mem="3g", env=None):
        meta = self.uid("meta")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-cp", JAR, "-Djava.io.tmpdir=" + self.work, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
               "-nowarning", "-config", cfg] + list(extra) + [os.path.join(V, "specs", module + ".tla")]
        out = self.uid(module + ".out")
        e = dict(os.environ); e.update(env or {})
        with open(out, "w") as f:
            try:
                p = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, cwd=self.work, env=e)
            except subprocess.TimeoutExpired:
                raise ToolError("TLC timed out on %s" % module)
        shutil.rmtree(meta, ignore_errors=True)
        return p.returncode, out

    def stats(self, out):
        tail = subprocess.run(["tail", "-n", "60", out], capture_output=True, text=True).stdout
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", tail)
        if m:
            return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))
        m = re.findall(r"([\d,]+) states checked", tail)
        if m:
            return int(m[-1].replace(",", "")), 0
        return 0, 0

    def mc(self, c):
        cfg = self.uid("mc.cfg")
        write_cfg(cfg, c.get("spec", "Spec"), c["consts"], c.get("inv", ()), c.get("props", ()), view=c.get("view"), symmetry=c.get("symmetry"), constraint=c.get("constraint"))
        rc, out = self.tlc(c["module"], cfg, workers=c.get("workers", 4), timeout=c.get("timeout", 700), mem=c.get("mem", "6g"))
        if rc != 0:
            raise ToolError("the specification %s does not satisfy its own properties (rc=%d): %s" % (c["module"], rc, subprocess.run(["tail", "-n", "80", out], capture_output=True, text=True).stdout))
        g, d = self.stats(out)
        if d < c.get("min", 2):
            raise ToolError("model checking of %s visited only %d states" % (c["module"], d))
        return ("mc", c, g, d)

    def extract(self, out):
        res, seen = [], set()
        with open(out) as f:
            for l in f:
                if l.startswith('"['):
                    try:
                        t = json.loads(l)
                    except ValueError:
                        raise ToolError("cannot parse exported behaviour: " + l[:200])
                    if t not in seen:
                        seen.add(t)
                        res.append(t)
        return res

    def gen(self, c):
        """cover: one behaviour per transition of the abstract state graph; sim: random long behaviours"""
        cfg = self.uid("gen.cfg")
        if c["kind"] == "cover":
            write_cfg(cfg, c.get("spec", "SpecQ"), c["consts"], c.get("inv", ()), view=c.get("view", "View"), action_constraint="Emit", constraint=c.get("constraint"))
            rc, out = self.tlc(c["module"], cfg, workers=1, timeout=c.get("timeout", 700))
        else:
            consts = dict(c["consts"])
            write_cfg(cfg, c.get("spec", "SpecQ"), consts, ["EmitEnd"], constraint=c.get("constraint"))
            rc, out = self.tlc(c["module"], cfg, workers=1, timeout=c.get("timeout", 700),
                               extra=["-simulate", "num=%d" % c["num"], "-depth", str(c["depth"] + 2), "-seed", str(SEED * 1000 + self.n)],
                               env={"SIMLEN": str(c["depth"])})
        if rc != 0:
            raise ToolError("exporting behaviours from %s failed (rc=%d): %s" % (c["module"], rc, subprocess.run(["tail", "-n", "40", out], capture_output=True, text=True).stdout))
        g, d = self.stats(out)
        behs = self.extract(out)
        os.unlink(out)
        if len(behs) < c.get("min", 1):
            raise ToolError("only %d behaviours exported from %s" % (len(behs), c["module"]))
        cap = c.get("cap", 2 * c["num"] if c["kind"] == "sim" else None)
        if cap and len(behs) > cap:
            import random
            r = random.Random(SEED)
            behs = r.sample(behs, cap)
        return ("gen", c, g, d, behs)

    def harness(self, binary, args, timeout=700, env=None):
        e = dict(os.environ); e.update(env or {})
        out = self.uid("harness.out")
        with open(out, "w") as f:
            try:
                p = subprocess.run([os.path.join(V, "target", "debug", binary)] + args, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, cwd=self.work, env=e)
            except subprocess.TimeoutExpired:
                raise ToolError("harness timed out")
        rep = None
        for l in open(out, errors="replace"):
            if l.startswith("REPORT "):
                rep = json.loads(l[7:])
        if rep is None:
            raise ToolError("harness %s gave no report (rc=%s): %s" % (binary, p.returncode, subprocess.run(["tail", "-c", "3000", out], capture_output=True, text=True).stdout))
        return rep

    def violation(self, what, data):
        k = checks.known_match(self.pid, data)
        if k is not None:
            if k not in self.known: self.known.append(k)
            return
        h = hashlib.sha1(json.dumps(data, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(self.replays, "%s-%s.json" % (self.pid, h))
        json.dump(dict(property=self.pid, what=what, **data), open(path, "w"), indent=1)
        self.violations.append((path, what))

    def replay(self, c, behs):
        f = self.uid("behs.ndjson")
        open(f, "w").write("\n".join(behs) + "\n")
        rep = self.harness(c["bin"], [c.get("sub", "replay"), f], timeout=c.get("timeout", 700), env=c.get("env"))
        if c.get("confirm", True) and rep["fails"]:
            # a deviation counts when it shows again in a run of its own
            conf = []
            for x in rep["fails"][:8]:
                f2 = self.uid("confirm.ndjson")
                open(f2, "w").write((json.dumps(x["behaviour"]) + "\n") * c.get("again", 10))
                r2 = self.harness(c["bin"], [c.get("sub", "replay"), f2], timeout=300, env=c.get("env"))
                if r2["fails"]: conf.append(r2["fails"][0] | {"behaviour": x["behaviour"]})
            if not conf and rep.get("ran", 0) < rep["behaviours"]:
                raise ToolError("the replay ended early on deviations that do not show again: %s" % json.dumps(rep["fails"][0])[:2000])
            self.detail.append(dict(stage="deviations that did not show again", count=len(rep["fails"]) - len(conf), first=None if conf else {k: rep["fails"][0][k] for k in ("step", "expected", "got", "note")}))
            rep["fails"] = conf
        for x in rep["fails"]:
            self.violation("the code deviates from the specification", dict(bin=c["bin"], sub=c.get("sub", "replay"), module=c["module"], **x))
        return rep

    def trace(self, c):
        """record executions of the real code and check them against a trace specification"""
        tr = self.uid("trace.ndjson")
        rep = self.harness(c["bin"], [c["sub"], tr, str(SEED), str(c["runs"])], timeout=c.get("timeout", 600), env=c.get("env"))
        for x in rep.get("fails", []):
            self.violation("deviation while recording", dict(bin=c["bin"], sub=c["sub"], **x))
        lines = [l for l in open(tr) if l.strip()]
        runs = rep.get("runs", c["runs"])
        if not lines: raise ToolError("empty trace")
        ok, stuck = self.check_trace(c, tr)
        if not ok:
            ctx = lines[max(0, stuck - 60):stuck + 1]
            self.violation("a recorded execution is not a behaviour of the specification", dict(module=c["module"], sub=c["sub"], bin=c["bin"], stuck_at=stuck, trace=[json.loads(x) for x in ctx]))
        self.validated += runs
        self.steps += len(lines)
        if len(self.samples) < 4: self.samples.append(dict(recorded=[json.loads(x) for x in lines[:12]]))
        self.detail.append(dict(stage="trace validation", module=c["module"], runs=runs, events=len(lines), accepted=ok))

    def check_trace(self, c, tr):
        cfg = self.uid("trace.cfg")
        write_cfg(cfg, "TraceSpec", c.get("consts", {}), c.get("inv", ()), postcondition="TraceAccepted")
        rc, out = self.tlc(c["module"], cfg, workers=1, timeout=600, env={"TRACE": tr}, mem="4g")
        g, d = self.stats(out)
        self.states += d; self.trans += g
        txt = open(out, errors="replace").read()
        if rc == 0 and "No error has been found" in txt:
            return True, 0
        m = re.findall(r"STUCK (\d+)", txt)
        if m or "is violated" in txt:
            return False, int(m[-1]) if m else d
        raise ToolError("trace validation failed to run: " + txt[-3000:])

def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args: tier = args[args.index("--tier") + 1]
    if tier not in ("quick", "thorough"): tier = "quick"
    R = Run(pid, tier)
    try:
        if "--replay" in args:
            return do_replay(R, args[args.index("--replay") + 1])
        return decide(R, checks.get(pid, tier))
    except ToolError as e:
        print("ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(R.work, ignore_errors=True)

def build(bins):
    p = subprocess.run([os.path.join(V, "build.sh")] + sorted(bins), capture_output=True, text=True)
    if p.returncode != 0:
        raise ToolError("build failed:\n" + (p.stdout + p.stderr)[-6000:])

def do_replay(R, path):
    d = json.load(open(path))
    build({d["bin"]})
    if "behaviour" not in d:
        print("recorded execution; see the file"); return 2
    f = R.uid("b.ndjson")
    open(f, "w").write(json.dumps(d["behaviour"]) + "\n")
    rep = R.harness(d["bin"], [d["sub"], f])
    print(json.dumps(rep, indent=1))
    return 1 if rep["fails"] else 0

class Redis:
    """a private redis-server on a free loopback port, all its files in the scratch directory of this run"""
    def __init__(self, R):
        import socket
        for _ in range(5):
            k = socket.socket(); k.bind(("127.0.0.1", 0)); port = k.getsockname()[1]; k.close()
            d = R.uid("redis"); os.makedirs(d)
            self.p = subprocess.Popen(["redis-server", "--port", str(port), "--bind", "127.0.0.1", "--save", "", "--appendonly", "no", "--dir", d, "--daemonize", "no"],
                                      stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            for _ in range(100):
                time.sleep(0.05)
                if self.p.poll() is not None: break
                try:
                    k = socket.create_connection(("127.0.0.1", port), 1); k.sendall(b"PING\r\n"); ok = k.recv(7); k.close()
                    if ok.startswith(b"+PONG"):
                        os.environ["VH_REDIS"] = "redis://127.0.0.1:%d/" % port
                        return
                except OSError:
                    pass
            self.stop()
        raise ToolError("redis-server did not start")
    def stop(self):
        self.p.kill(); self.p.wait()

def decide(R, C):
    r = Redis(R) if C.get("redis") else None
    try:
        return decide_(R, C)
    finally:
        if r: r.stop()

def decide_(R, C):
    bins = {x["bin"] for x in C["stages"] if "bin" in x}
    with cf.ThreadPoolExecutor(max_workers=6) as ex:
        fb = ex.submit(build, bins)
        futs = []
        for st in C["stages"]:
            if st["type"] == "mc": futs.append(ex.submit(R.mc, st))
            elif st["type"] == "gen": futs.append(ex.submit(R.gen, st))
        fb.result()
        groups = {}
        for f in futs:
            r = f.result()
            if r[0] == "mc":
                _, c, g, d = r
                R.states += d; R.trans += g
                R.detail.append(dict(stage="model checking", module=c["module"], consts={k: str(v) for k, v in c["consts"].items()}, generated=g, distinct=d, invariants=list(c.get("inv", ())), properties=list(c.get("props", ()))))
            else:
                _, c, g, d, behs = r
                R.states += d; R.trans += g
                R.detail.append(dict(stage="behaviours (%s)" % c["kind"], module=c["module"], consts={k: str(v) for k, v in c["consts"].items()}, behaviours=len(behs), distinct_states=d))
                key = (c["bin"], c.get("sub", "replay"), c["module"], c.get("timeout", 700), json.dumps(c.get("env", {})))
                groups.setdefault(key, (c, []))[1].extend(behs)
    for key, (c, behs) in groups.items():
        # behaviours that are prefixes of others add nothing
        behs = prune(behs)
        rep = R.replay(c, behs)
        R.validated += rep["behaviours"]; R.steps += rep["steps"]
        R.detail.append(dict(stage="replay into the implementation", bin=c["bin"], behaviours=rep["behaviours"], steps=rep["steps"], deviations=len(rep["fails"]), extra=rep.get("extra")))
        for b in (behs[0], behs[len(behs) // 2]):
            if len(R.samples) < 4: R.samples.append(json.loads(b))
    for st in C["stages"]:
        if st["type"] == "trace": R.trace(st)
        elif st["type"] == "native":
            rep = R.harness(st["bin"], [st["sub"]] + [str(a) for a in st.get("args", [])] + [str(SEED)], timeout=st.get("timeout", 700))
            for x in rep["fails"]: R.violation("the code deviates from the specification", dict(bin=st["bin"], sub=st["sub"], module=st.get("module", ""), **x))
            R.validated += rep["behaviours"]; R.steps += rep["steps"]
            R.detail.append(dict(stage=st["sub"], bin=st["bin"], behaviours=rep["behaviours"], steps=rep["steps"]))
    ev = dict(property=R.pid, tier=R.tier, seed=SEED, level="model_checking",
              coverage=dict(states=R.states, transitions=R.trans, traces_validated_against_impl=R.validated, impl_steps=R.steps,
                            samples=R.samples, stages=R.detail, known_findings=[k["text"] for k in R.known]),
              assumptions=C.get("assumptions", []), wall_s=round(time.time() - R.t0, 2), violations=len(R.violations))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", R.pid + ".json"), "w"), indent=1)
    for k in R.known:
        print("KNOWN-FINDING: property=%s %s" % (R.pid, k["text"]))
    for p, w in R.violations[:5]:
        print("VIOLATION property=%s replay=%s" % (R.pid, p))
        d = json.load(open(p))
        print("  %s: step %s expected %s got %s %s" % (w, d.get("step", d.get("stuck_at")), json.dumps(d.get("expected"))[:600], json.dumps(d.get("got"))[:600], d.get("note", "")))
    if R.violations: return 1
    print("OK property=%s states=%d transitions=%d traces=%d steps=%d wall=%.1fs" % (R.pid, R.states, R.trans, R.validated, R.steps, time.time() - R.t0))
    return 0

def prune(behs):
    """drop exported behaviours that are prefixes of other exported behaviours (same text up to the bracket)"""
    ss = sorted(set(behs))
    keep = []
    for i, b in enumerate(ss):
        stem = b[:-1] + ","
        # sorted order: '[...],' extensions of '[...]' sort near; check by bisect
        import bisect
        j = bisect.bisect_left(ss, stem)
        if j < len(ss) and ss[j].startswith(stem): continue
        keep.append(b)
    return keep

if __name__ == "__main__":
    sys.exit(main())
