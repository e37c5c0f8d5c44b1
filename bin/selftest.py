#!/usr/bin/env python3
"""Sensitivity of the monitors: traces recorded by the checks are corrupted at one
place, and TLC must reject them.  Prints, for each monitor and each field of the
events, how many corruptions were rejected.  Not part of a check.

usage: selftest.py [P01 ...]      (N corruptions per suite: env SELFTEST_N, default 120)"""
import copy, json, os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import fx, props

N = int(os.environ.get("SELFTEST_N", "120"))
rng = random.Random(7)
total = {}


def places(x, path=()):
    """Every scalar and every list inside an event."""
    if isinstance(x, dict):
        for k, v in x.items():
            if not (path == () and k in ("t",)):
                yield from places(v, path + (k,))
    elif isinstance(x, list):
        yield path, x
        for k, v in enumerate(x):
            yield from places(v, path + (k,))
    else:
        yield path, x


def corrupt(ev, evs):
    """Changes one place of an event; returns (name of the place, event) or None."""
    ps = [p for p in places(ev) if p[0]]
    if not ps:
        return None
    names = sorted({tuple(k for k in p if not isinstance(k, int)) for p, _ in ps})
    name = rng.choice(names)
    path, x = rng.choice([p for p in ps if tuple(k for k in p[0] if not isinstance(k, int)) == name])
    ev = copy.deepcopy(ev)
    o = ev
    for k in path[:-1]:
        o = o[k]
    if isinstance(x, list):
        if x:
            del o[path[-1]][rng.randrange(len(x))]
            how = "drop"
        else:
            return None
    elif isinstance(x, bool):
        o[path[-1]] = not x
        how = "flip"
    elif isinstance(x, (int, str)):
        # another value of the same field in the same trace
        alt = sorted({y for e in evs for p, y in places(e) if tuple(k for k in p if not isinstance(k, int)) == name and type(y) == type(x)} - {x})
        if not alt:
            return None
        o[path[-1]] = rng.choice(alt)
        how = "other"
    else:
        return None
    return ".".join(map(str, (ev["t"],) + name)) + ":" + how, ev


def run_tlc(c, spec, ts):
    f, out = os.path.join(c.work, "self.nd"), os.path.join(c.work, "self.out")
    if os.path.exists(out):
        os.remove(out)
    with open(f, "w") as o:
        for t in ts:
            o.write(json.dumps(t) + "\n")
    r = fx.tlc(spec, "Trace.cfg", c.work, envx={"TRACES": f, "OUT": out})
    bad = {}
    for l in open(out) if os.path.exists(out) else ():
        v = json.loads(l)
        v = json.loads(v) if isinstance(v, str) else v
        bad[v["id"]] = v["bad"]
    return r, bad


def selftest(c, name, spec, traces):
    ts, what = [], {}
    good = [t for t in traces if not t.get("drift")]
    for k in range(N):
        t = rng.choice(good)
        kinds = sorted({e["t"] + e.get("op", "") for e in t["ev"]})
        if not kinds:
            continue
        kd = rng.choice(kinds)
        j = rng.choice([j for j, e in enumerate(t["ev"]) if e["t"] + e.get("op", "") == kd])
        if rng.random() < .15:
            r = (kd + " (event dropped)", None)
        else:
            r = corrupt(t["ev"][j], t["ev"])
        if r is None:
            continue
        u = dict(t, id="m%d" % k, ev=t["ev"][:j] + ([r[1]] if r[1] else []) + t["ev"][j + 1:])
        ts.append(u)
        what[u["id"]] = r[0]
    res = {}
    todo = ts
    while todo:
        r, bad = run_tlc(c, spec, todo)
        m = re.search(r"\bep = (\d+)", r["out"]) if "No error has been found" not in r["out"] else None
        if m:   # a trace that cannot even be interpreted
            t = todo.pop(int(m.group(1)) - 1)
            res[t["id"]] = ["uninterpretable"]
            continue
        if "No error has been found" not in r["out"]:
            raise fx.Broken(r["out"][-1500:])
        for t in todo:
            res[t["id"]] = sorted({b[0] for b in bad.get(t["id"], [])})
        break
    for t in ts:
        m = total.setdefault(spec, {}).setdefault(what[t["id"]], [0, 0, set()])
        m[0] += 1
        m[1] += bool(res[t["id"]])
        m[2] |= set(res[t["id"]])


orig = fx.Check.suite


def suite(self, name, eps, spec, **kw):
    traces = orig(self, name, eps[:60], spec, **kw)
    selftest(self, name, spec, traces)
    return traces


fx.Check.suite = suite
fx.Check.mc = lambda *a, **k: None
fx.Check.need = lambda *a, **k: None
if __name__ == "__main__":
    for p in sys.argv[1:] or [json.loads(l)["id"] for l in open(os.path.join(fx.VERIF, "properties.jsonl"))]:
        total.clear()
        c = fx.Check(p)
        getattr(props, p.lower())(c)
        for s in sorted(total):
            print("== %s %s" % (p, s))
            for w in sorted(total[s]):
                n, r, tags = total[s][w]
                print("%4d/%-4d %-50s %s" % (r, n, w, " ".join(sorted(tags))[:80]))
        sys.stdout.flush()
