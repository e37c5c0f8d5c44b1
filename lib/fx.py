"""Pipeline shared by all the checks: TLC, the harness, trace validation."""
import hashlib, json, os, re, shutil, subprocess, sys, time, random
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
CPUS = max(2, min(8, os.cpu_count() or 2))


class Broken(Exception):
    """The machinery itself failed (exit 2)."""


def env():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "")
    e.pop("RUSTFLAGS", None)
    return e


def tree_hash():
    h = hashlib.sha256()
    for d, ds, fs in os.walk("/repo"):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
        for f in sorted(fs):
            if f.endswith((".rs", ".toml")):
                h.update(os.path.join(d, f).encode() + b"\0" + open(os.path.join(d, f), "rb").read() + b"\0")
    return h.hexdigest()


def build(hook=False):
    e = env()
    target = os.path.join(HARN, "target")
    cmd = ["cargo", "build", "--offline", "--locked"]
    if hook:
        e["RUSTFLAGS"] = "--cfg findex_verif"
        target = os.path.join(HARN, "target", "v")
    # cargo only compares dates: a tree restored with older dates must be rebuilt too
    h, rec = tree_hash(), os.path.join(target, "tree")
    if os.path.exists(target) and (not os.path.exists(rec) or open(rec).read() != h):
        subprocess.run(["cargo", "clean", "--offline", "-p", "cosmian_findex", "-p", "fxv", "--target-dir", target], cwd=HARN, env=e, capture_output=True)
    p = subprocess.run(cmd + ["--target-dir", target], cwd=HARN, env=e, capture_output=True, text=True, timeout=600)
    if p.returncode:
        raise Broken("the harness does not build:\n" + p.stderr[-3000:])
    with open(rec, "w") as f:
        f.write(h)
    return os.path.join(target, "debug", "fxv")


def tlc(module, cfg, work, extra=(), envx=None, timeout=600, workers=None):
    """Runs TLC on a specification; returns its output and statistics."""
    meta = os.path.join(work, "tlc-%s-%d" % (module, random.getrandbits(40)))
    os.makedirs(meta)
    e = env()
    e.update(envx or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx6g", "-Xss64m", "-cp",
           "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC",
           "-workers", str(workers or CPUS), "-noGenerateSpecTE", "-metadir", meta, "-config", cfg, *extra, module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken("TLC timed out on %s %s" % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    o = p.stdout + p.stderr
    o = "\n".join(l for l in o.splitlines() if not l.startswith(("Parsing", "Semantic", "Linting")))
    r = {"out": o, "rc": p.returncode, "gen": 0, "distinct": 0}
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", o)
    if m:
        r["gen"], r["distinct"], r["left"] = map(int, m.groups())
    m = re.search(r"The depth of the complete state graph search is (\d+)", o)
    if m:
        r["depth"] = int(m.group(1))
    m = re.findall(r"Invariant (\w+) is violated|property (\w+) (?:is|was) violated|Temporal properties were violated|(Action property) ", o)
    r["violated"] = [x[0] or x[1] or ("action" if x[2] else "temporal") for x in m]
    return r


def findings():
    """The genuine defects recorded and not repaired."""
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    for l in open(p):
        m = re.match(r"finding: property=(\S+) tag=(\S+) (.*)", l)
        if m:
            out.append({"property": m.group(1), "tag": m.group(2), "what": m.group(3)})
    return out


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.pool, self.models = ThreadPoolExecutor(2), []
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random("%s-%d" % (pid, self.seed))
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.bins = {}
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
                    "trace_states": 0, "trace_events": 0, "episodes_with_schedule_drift": 0, "models": [], "suites": []}
        self.viol = []
        self.hangs = 0
        self.known = []
        self.assumptions = []
        self.nfile = 0

    # ------------------------------------------------------------ models --
    def mc(self, module, cfg=None, expect=None, timeout=700, envx=None, what=""):
        """Model-checks a design specification (independent of the code), in the background."""
        self.models.append(self.pool.submit(self.mc_now, module, cfg, expect, timeout, envx, what))

    def mc_now(self, module, cfg, expect, timeout, envx, what):
        t = time.time()
        r = tlc(module, (cfg or module) + ".cfg", self.work, timeout=timeout, envx=envx, workers=max(2, CPUS // 2))
        ok = "Model checking completed. No error has been found." in r["out"]
        if expect is None and not ok:
            raise Broken("specification %s: %s" % (cfg or module, r["out"][-2500:]))
        if expect is not None and expect not in r["violated"]:
            raise Broken("specification %s should violate %s: %s" % (cfg or module, expect, r["out"][-2500:]))
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["gen"]
        self.cov["models"].append({"model": cfg or module, "what": what, "distinct_states": r["distinct"], "states_generated": r["gen"],
                                   "depth": r.get("depth"), "expected_violation": expect,
                                   "complete": ok, "wall_s": round(time.time() - t, 1)})
        return r

    def prove(self, module, what=""):
        """Checks the proofs of a module, in the background (independent of the code)."""
        self.models.append(self.pool.submit(self.prove_now, module, what))

    def prove_now(self, module, what):
        t = time.time()
        d = os.path.join(self.work, "proof-" + module)
        shutil.copytree(SPEC, d)
        try:
            # the time limits of the solvers are stretched: the machine may be busy
            p = subprocess.run(["tlapm", "--threads", str(max(2, CPUS // 2)), "--stretch", "5", module + ".tla"], cwd=d, env=env(),
                               capture_output=True, text=True, timeout=800)
        except subprocess.TimeoutExpired:
            raise Broken("tlapm timed out on " + module)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        m = re.findall(r"All (\d+) obligations? proved", p.stdout + p.stderr)
        if p.returncode or not m:
            raise Broken("proofs of %s: %s" % (module, (p.stdout + p.stderr)[-2500:]))
        self.cov["models"].append({"model": module, "what": what, "proof_obligations": sum(map(int, m)), "complete": True,
                                   "wall_s": round(time.time() - t, 1)})

    def histories(self, num, length, mix):
        """Random histories of the abstract index (Index.tla), drawn by TLC."""
        self.nfile += 1
        out = os.path.join(self.work, "gen%d.nd" % self.nfile)
        mixf = os.path.join(self.work, "mix%d.json" % self.nfile)
        json.dump(mix, open(mixf, "w"))
        seed = self.rng.randrange(1, 2**31)
        r = tlc("IndexGen", "IndexGen.cfg", self.work, workers=1,
                extra=["-seed", str(seed), "-simulate", "num=%d" % num, "-depth", str(length + 5)],
                envx={"OUT": out, "GEN_LEN": str(length), "GEN_MIX": mixf})
        hs = [json.loads(json.loads(l)) for l in open(out)] if os.path.exists(out) else []
        if len(hs) < num * 0.9:
            raise Broken("history generation: " + r["out"][-2000:])
        self.cov["models"].append({"model": "IndexGen", "histories": len(hs), "length": length})
        return hs

    def export(self, module, cfg, sim=None, depth=60, timeout=700, envx=None):
        """Behaviours of the design specification, as schedules."""
        self.nfile += 1
        out = os.path.join(self.work, "beh%d.nd" % self.nfile)
        x = dict(envx or {})
        x["OUT"] = out
        if sim:
            seed = self.rng.randrange(1, 2**31)
            r = tlc(module, cfg + ".cfg", self.work, workers=1, timeout=timeout, envx=x,
                    extra=["-seed", str(seed), "-simulate", "num=%d" % sim, "-depth", str(depth)])
        else:
            r = tlc(module, cfg + ".cfg", self.work, timeout=timeout, envx=x)
            if "No error has been found" not in r["out"]:
                raise Broken("export %s: %s" % (cfg, r["out"][-2500:]))
            self.cov["states"] += r["distinct"]
            self.cov["transitions"] += r["gen"]
        bs = [json.loads(json.loads(l)) for l in open(out)] if os.path.exists(out) else []
        if not bs:
            raise Broken("no behaviour exported by %s: %s" % (cfg, r["out"][-2500:]))
        self.cov["models"].append({"model": module + "/" + cfg, "exported_behaviours": len(bs),
                                   "mode": "simulation" if sim else "exhaustive"})
        return bs

    # ----------------------------------------------------------- harness --
    def builds(self, *hooks):
        """Builds the harness, with and without the small batches."""
        with ThreadPoolExecutor(2) as ex:
            list(ex.map(self.bin, hooks))

    def bin(self, hook=False):
        if hook not in self.bins:
            self.bins[hook] = build(hook)
        return self.bins[hook]

    def run(self, eps, hook=False, cmd="run", timeout=600):
        """Executes episodes on the real code; returns the recorded traces."""
        b = self.bin(hook)
        self.nfile += 1
        n = self.nfile
        for k, ep in enumerate(eps):
            ep.setdefault("id", "e%d-%d" % (n, k))
            ep.setdefault("meta", {"none": 0})
        shards = [eps[k::CPUS] for k in range(CPUS)]
        lost = [0]

        def one(k):
            todo, done, tries = shards[k], [], 0
            while todo:
                fi = os.path.join(self.work, "ep%d-%d-%d.nd" % (n, k, tries))
                fo = os.path.join(self.work, "tr%d-%d-%d.nd" % (n, k, tries))
                tries += 1
                with open(fi, "w") as f:
                    for ep in todo:
                        f.write(json.dumps(ep) + "\n")
                p = subprocess.Popen([b, cmd, fi, fo], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True,
                                     env={**env(), "FXV_HANG": "8" if self.hangs > 7 else "60"})
                try:
                    _, err = p.communicate(timeout=timeout)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.communicate()
                    raise Broken("the harness did not finish in %d s" % timeout)
                got = []
                if os.path.exists(fo):
                    for l in open(fo):
                        try:
                            got.append(json.loads(l))
                        except ValueError:
                            break
                done += got
                os.remove(fi)
                if os.path.exists(fo):
                    os.remove(fo)
                if len(got) == len(todo):
                    break
                if p.returncode == 0 or p.returncode is None:
                    raise Broken("the harness lost episodes: " + (err or "")[-500:])
                if p.returncode == 101 and "fxv machinery" in (err or ""):
                    raise Broken("harness: " + err[-800:])
                # this episode killed the process (stack overflow, abort) or hung it
                bad = todo[len(got)]
                done.append({"id": bad["id"], "drift": 0, "meta": bad["meta"],
                             "ev": [{"t": "hang" if p.returncode == 77 else "die", "rc": p.returncode}]})
                todo = todo[len(got) + 1:]
                # each hang takes a minute: a few of them are enough to tell, and the next
                # ones are given up sooner
                self.hangs += p.returncode == 77
                lost[0] += 10 if p.returncode == 77 else 1
                if lost[0] > 40:
                    break
            return done

        with ThreadPoolExecutor(CPUS) as ex:
            traces = [t for l in ex.map(one, range(CPUS)) for t in l]
        traces.sort(key=lambda t: t["id"])
        return traces

    # -------------------------------------------------------- validation --
    def validate(self, spec, traces, timeout=800, envx=None):
        """TLC validates recorded traces; returns [(id, [[tag, index]...])]."""
        if not traces:
            raise Broken("no trace to validate")
        self.nfile += 1
        f = os.path.join(self.work, "traces%d.nd" % self.nfile)
        out = os.path.join(self.work, "bad%d.nd" % self.nfile)

        def go(ts):
            if os.path.exists(out):
                os.remove(out)
            with open(f, "w") as o:
                for t in ts:
                    o.write(json.dumps(t) + "\n")
            x = {"TRACES": f, "OUT": out}
            x.update(envx or {})
            r = tlc(spec, "Trace.cfg", self.work, envx=x, timeout=timeout)
            want = sum(len(t["ev"]) + 1 for t in ts)
            return r, "No error has been found" in r["out"] and r["distinct"] == want, want

        r, ok, want = go(traces)
        if not ok and ("rror: Attempted to" in r["out"] or "rror: In evaluation" in r["out"] or "evaluating" in r["out"].lower()):
            # a trace that the specification cannot even interpret is rejected
            part = traces
            while len(part) > 1:
                half = part[:len(part) // 2]
                part = half if not go(half)[1] else part[len(part) // 2:]
            r1, ok1, _ = go(part)
            if not ok1:
                self.reject_msg = r1["out"][-1500:]
                return {part[0]["id"]: [["rejected"]]}
        if not ok:
            raise Broken("trace validation with %s: %d states instead of %d\n%s" % (spec, r["distinct"], want, r["out"][-3000:]))
        bad = {}
        if os.path.exists(out):
            for l in open(out):
                v = json.loads(l)
                if isinstance(v, str):
                    v = json.loads(v)
                bad[v["id"]] = v["bad"]
        self.cov["trace_states"] += r["distinct"]
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["gen"]
        self.cov["trace_events"] += sum(len(t["ev"]) for t in traces)
        self.cov["traces_validated_against_impl"] += len(traces)
        self.cov["episodes_with_schedule_drift"] += sum(1 for t in traces if t.get("drift"))
        os.remove(f)
        return bad

    def suite(self, name, eps, spec, tags=None, ignore=(), hook=False, timeout=600, cmd="run", views=None):
        """Runs episodes and validates their traces: the verdict of a check."""
        t = time.time()
        for k, ep in enumerate(eps):
            ep["id"] = "%s-%d" % (name, k)
        traces = self.run(eps, hook=hook, timeout=timeout, cmd=cmd)
        byid = {ep["id"]: ep for ep in eps}
        if views:
            # the monitor judges parts of the traces, independently
            traces = [dict(v, id="%s@%d" % (t["id"], k)) for t in traces for k, v in enumerate(views(t))]
            byid = {t["id"]: byid[t["id"].split("@")[0]] for t in traces}
        tr = {t["id"]: t for t in traces}
        bad = self.validate(spec, traces)
        nv = 0
        for eid in sorted(bad):
            tg = sorted({b[0] for b in bad[eid]})
            # an episode is not judged any further once the monitor is lost, which
            # only a broken obligation may explain
            last = min([b[1] for b in bad[eid] if b[0] == "machinery"], default=None)
            seen = [b for b in bad[eid] if last is None or len(b) > 1 and b[0] != "machinery" and b[1] <= last]
            if not seen:
                raise Broken("the monitor does not understand episode %s: %s" % (eid, bad[eid]))
            rel = [b for b in seen if b[0] == "rejected" or (tags is None or b[0] in tags) and b[0] not in ignore]
            if not rel:
                continue
            kn = {f["tag"] for f in findings() if f["property"] == self.pid}
            if any(b[0] in kn for b in rel):
                self.known.append((eid, rel))
                rel = [b for b in rel if b[0] not in kn]
                if not rel:
                    continue
            nv += 1
            self.violation(name, spec, byid[eid], tr[eid], rel, hook, cmd)
        kinds = {}
        for x in traces:
            for e in x["ev"]:
                k = e["t"] + "." + e["op"] if e["t"] in ("inv", "edx") else e["t"]
                if e["t"] == "res":
                    k = "res." + e["st"]
                kinds[k] = kinds.get(k, 0) + 1
        self.cov["suites"].append({"suite": name, "episodes": len(eps), "monitor": spec, "events": kinds, "violations": nv,
                                   "small_batch_build": hook, "wall_s": round(time.time() - t, 1)})
        if len(self.cov["samples"]) < 4 and traces:
            s = traces[len(traces) // 2]
            ev, size = [], 0
            for e in s["ev"]:
                size += len(json.dumps(e))
                if size > 8000:
                    break
                ev.append(e)
            self.cov["samples"].append({"suite": name, "id": s["id"], "events": ev})
        return traces

    def violation(self, name, spec, ep, trace, rel, hook=False, cmd="run"):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.pid, len(self.viol)))
        if len(self.viol) < 3:
            json.dump({"property": self.pid, "suite": name, "monitor": spec, "obligations": rel, "hook": hook, "cmd": cmd,
                       "episode": ep, "trace": trace}, open(path, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            for b in rel[:4]:
                j = b[1] if len(b) > 1 and isinstance(b[1], int) else None
                ev = trace["ev"][j - 1] if j and 0 < j <= len(trace["ev"]) else ""
                print("  obligation %s broken in %s at event %s: %s" % (b[0], ep.get("id"), j, json.dumps(ev)[:300]))
        self.viol.append((name, ep.get("id"), rel))

    def need(self, cond, what):
        """Anti-vacuity: what the run must have exercised."""
        if not cond and not self.viol:
            raise Broken("vacuous run: " + what)

    # ------------------------------------------------------------- end ----
    def finish(self):
        for m in self.models:
            m.result()
        self.cov["models"].sort(key=lambda m: m["model"])
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        self.cov["known_findings"] = len(self.known)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.viol)}
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        for f in findings():
            n = sum(1 for eid, rel in self.known if any(b[0] == f["tag"] for b in rel))
            if f["property"] == self.pid and n:
                print("KNOWN-FINDING: property=%s %s (%d histories)" % (self.pid, f["what"], n))
        print("%s %s: %d model/trace states, %d traces validated, %d violations, %.0f s" % (
            self.pid, self.tier, self.cov["states"], self.cov["traces_validated_against_impl"], len(self.viol), time.time() - self.t0))
        return 1 if self.viol else 0


def main(pid, fn):
    c = None
    try:
        c = Check(pid)
        fn(c)
        return c.finish()
    except Broken as e:
        if c and c.viol:
            print("(then: %s)" % str(e)[:500])
            return c.finish()
        print("ERROR %s: %s" % (pid, e), file=sys.stderr)
        if c:
            shutil.rmtree(c.work, ignore_errors=True)
        return 2
