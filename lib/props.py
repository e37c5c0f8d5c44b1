"""One function per property: what is specified, executed and validated."""
import json, math, os, random
from gen import *

SEARCH = {"search.out", "search.fed", "search.miss", "search.level"}
DEAD = {"panic"}


def rngs(c, name, n):
    for k in range(n):
        yield k, random.Random("%s-%s-%d-%d" % (c.pid, name, c.seed, k))


def inst(rng, op):
    """Spread the operations over several instances: clients keep no state."""
    op["inst"] = rng.choice([0, 1, 2, 3])
    return op


def sample(rng, l, n):
    return l if len(l) <= n else rng.sample(l, n)


WIDE = [40, 130, 270, 530, 1040, 2100]


# ------------------------------------------------------------------ P01 ----
def p01(c):
    c.mc("Index", "IndexMC", what="abstract index: isolation, compaction preserves searches")
    c.mc("MC", "MCSeq", what="the design implements the abstract index for a single client")
    n = 2500 if c.thorough else 250
    eps = []
    for (k, rng), h in zip(rngs(c, "h", n), c.histories(n, 14, ["add", "add", "add", "del", "del", "search", "search"])):
        w = World(rng)
        ops = []
        for x in h:
            o = inst(rng, op_of(w, x, rng))
            if o["op"] == "search" and rng.random() < .5:
                ops += [snap("chk"), o, snap("chk")]
            else:
                ops.append(o)
        ops += [w.search(w.allkws()), snap("chk"), w.search([w.allkws()[0]]), snap("chk")]
        eps.append(w.episode(ops, mem=bool(k % 2)))
    # long values and keywords, many values under one keyword
    for k, rng in rngs(c, "big", 60 if c.thorough else 12):
        data = ["v%d" % j for j in range(40)]
        w = World(rng, kws=["a", "b"], data=data, lens=[0, 1, 15, 16, 17, 79, 80, 254, 255, 256, 4079, 4080, 4081, 70000] if k % 3 else [10, 14, 15, 16])
        ops = []
        for j in range(6):
            op = rng.choice(["add", "add", "del"])
            ops.append(inst(rng, w.write(op, [[rng.choice("ab"), "d", d] for d in rng.sample(data, rng.randrange(1, 25))])))
            ops.append(w.search(w.allkws()))
        eps.append(w.episode(ops, mem=bool(k % 2)))
    # many keywords, many values, in single operations
    for k, rng in rngs(c, "wide", 12 if c.thorough else 7):
        w = wide_world(rng, WIDE[k % 6])
        ops = wide_ops(w, rng) + [w.search(w.allkws())] + wide_ops(w, rng)[1:] + [w.search(rng.sample(w.allkws(), 5)), w.search(w.allkws())]
        eps.append(w.episode(ops, mem=bool(k % 2)))
        data = ["v%d" % j for j in range([600, 130, 1100, 257][k % 4])]
        w = World(rng, kws=["a", "b"], data=data, lens=[7, 9, 12, 20], twin=False)
        ops = [w.write("add", [["a", "d", d] for d in data] + [["b", "d", data[0]]]), w.search(w.allkws()),
               w.write("del", [["a", "d", d] for d in rng.sample(data, len(data) // 2)]), w.search(w.allkws())]
        eps.append(w.episode(ops, mem=bool(k % 2)))
    c.suite("histories", eps, "TraceSeq", tags=SEARCH | DEAD | {"changed", "spurious"})
    big_suite(c, {"search.out", "changed", "spurious"})

def big_suite(c, tags, rates=(None,), big=70000, n=1, hook=False, **kw):
    """Large indexes: one of `big`, the others smaller."""
    eps = []
    for k, rng in rngs(c, "mass%d" % hook, n * 7 + 1):
        size = big if k == 0 or c.thorough and k % 8 == 0 else rng.choice([129, 257, 300, 513, 1025, 2000, 4097])
        eps.append(mass(rng, size, rates[k % len(rates)], mem=bool(k % 2), **kw))
    tr = c.suite("large%s" % ("-b3" if hook else ""), eps, "TraceMass", tags=set(tags) | DEAD, hook=hook)
    return tr


# ------------------------------------------------------------------ P02 ----
GR = {"a": "1", "b": "2", "c": "3"}


def p02(c):
    c.mc("MC", "MCGraph", what="all the graphs of 3 keywords: searches answer the reachable data")
    c.mc("MC", "MCGraphD", what="... with dangling pointers")
    eps = []
    bs = c.export("MCExport", "XGraph") + c.export("MCExport", "XGraphD")
    for (k, rng), b in zip(rngs(c, "g", len(bs)), bs):
        w = World(rng, kws=["a", "b", "c"], data=["1", "2", "3"])
        ops = [spec_op(w, o) for o in b["init0"]]
        kk = w.allkws()
        ops += [w.search(kk)] + [w.search([x]) for x in kk] + [w.search(rng.sample(kk, 2))]
        eps.append(w.episode(ops, mem=bool(k % 2)))
    # histories: pointers added and deleted, larger graphs
    n = 1500 if c.thorough else 150
    for k, rng in rngs(c, "h", n):
        kws = ["k%d" % j for j in range(rng.choice([4, 6, 10, 25]))]
        w = World(rng, kws=kws, data=["d%d" % j for j in range(5)], lens=[0, 1, 5, 16, 40])
        ops = []
        for _ in range(rng.randrange(2, 7)):
            ops.append(random_op(w, rng, kinds=["add", "add", "add", "del"], nmax=3 * len(kws), ptr=.6))
        ops += [w.search(w.allkws())] + [w.search(rng.sample(w.allkws(), rng.choice([1, 2]))) for _ in range(4)]
        eps.append(w.episode(ops, mem=bool(k % 2)))
    # long chains and cycles
    for k, rng in rngs(c, "c", 6):
        kws = ["k%d" % j for j in range([40, 150][k % 2])]
        w = World(rng, kws=kws, data=["d%d" % j for j in range(4)], lens=[3, 8, 16])
        asc = [[kws[j], "p", kws[j + 1]] for j in range(len(kws) - 1)] + [[kws[-1], "d", "d0"], [kws[-1], "p", kws[k % len(kws)]]]
        eps.append(w.episode([w.write("add", asc), w.search([w.allkws()[0]]), w.search([w.allkws()[-1], w.allkws()[3]])]))
    # wide graphs: a keyword that points to many
    for k, rng in rngs(c, "w", 12 if c.thorough else 5):
        w = wide_world(rng, WIDE[:5][k % 5])
        ops = [w.write("add", [[w.kws[0], "p", x] for x in w.kws] + [[x, "d", rng.choice(w.data)] for x in w.kws]),
               w.search([w.allkws()[0]]), w.write("del", [[w.kws[0], "p", x] for x in rng.sample(w.kws, len(w.kws) // 3)]),
               w.search([w.allkws()[0]]), w.search([w.allkws()[-1], w.allkws()[0]])]
        eps.append(w.episode(ops, mem=bool(k % 2)))
    c.suite("graphs", eps, "TraceSeq", tags=SEARCH | DEAD | {"spurious"})
    # depth: only a summary of the search is recorded
    deep = [{"init": [{"op": "deep", "cred": ["K1", "L"], "n": n, "arg": a}]}
            for n, a in [(20000, "line"), (20000, "loop"), (3000, "star")]]
    if c.thorough:
        deep.append({"init": [{"op": "deep", "cred": ["K1", "L"], "n": 200000, "arg": "line"}]})
    c.suite("depth", deep, "TraceFact")


# ------------------------------------------------------------------ P03 ----
def p03(c):
    c.mc("MC", "MCGraph", what="stopped searches answer a part of the reachable data")
    eps = []
    n = 900 if c.thorough else 150
    for k, rng in rngs(c, "h", n):
        kws = ["k%d" % j for j in range(rng.choice([3, 5, 8]))]
        w = World(rng, kws=kws, data=["d%d" % j for j in range(4)], lens=[0, 1, 5, 16, 40])
        ops = [{"op": "detail", "n": 1}]
        if rng.random() < .6:
            # a backbone, so that there are several levels
            ops.append(w.write("add", [[kws[j], "p", kws[j + 1]] for j in range(len(kws) - 1)] + [[x, "d", rng.choice(w.data)] for x in kws]))
        for _ in range(rng.randrange(1, 4)):
            ops.append(random_op(w, rng, kinds=["add", "add", "del"], nmax=2 * len(kws), ptr=.6))
        for s in range(0, 6):
            q = [w.allkws()[0]] if rng.random() < .6 else rng.sample(w.allkws(), rng.randrange(1, len(kws)))
            ops.append(w.search(q, stop=s))
            ops.append(w.search(q, interr=s))
        eps.append(w.episode(ops, mem=bool(k % 2)))
    tr = c.suite("callbacks", eps, "TraceSeq", tags=SEARCH | DEAD | {"search.stop", "search.calls", "swallow", "spurious"})
    ints = [e for t in tr for e in t["ev"] if e["t"] == "int"]
    c.need(sum(e["ans"] == "stop" for e in ints) > 50 and sum(e["ans"] == "err" for e in ints) > 50, "callbacks never stop a search")


def writers(c):
    c.prove("WritersProof", what="any number of writers, readers and lines share one keyword")
    c.mc("WritersMC", "WrConc3", what="the design implements Writers: 3 clients")
    c.mc("WritersMC", "WrConcNoCas", expect="action", what="... not without the compare-and-swap")
    if c.thorough:
        c.mc("WritersMC", "WrConc22", what="... 2 clients, 2 operations each")
    c.mc("WritersMC", "WrCrash", what="... a fault anywhere, 2 keywords")


# ------------------------------------------------------------------ P04 ----
def p04(c):
    c.mc("MC", "MCConc2", what="2 clients, all interleavings: NewOnce")
    writers(c)
    c.mc("MC", "MCConcNoCas", expect="NewOnce", what="without the compare-and-swap NewOnce fails")
    n = 1500 if c.thorough else 150
    eps = []
    for (k, rng), h in zip(rngs(c, "h", n), c.histories(n, 14, ["add", "add", "add", "del", "del", "search", "full", "part"])):
        w = World(rng, ncreds=4)
        ops = []
        for x in h:
            o = inst(rng, op_of(w, x, rng))
            ops.append(o)
            if o["op"] == "compact":
                ops += [w.probe(x["cred"]), w.probe(x["to"])]
                o["arg"] = "probe"
        eps.append(w.episode(ops, mem=bool(k % 2)))
    c.suite("histories", eps, "TraceSeq", tags={"new"})
    eps = []
    bs = c.export("MCExport", "XConcW")
    bs += c.export("MCExport", "XConc3b", sim=3000 if c.thorough else 500)
    bs += c.export("MCExport", "XCrash", sim=6000 if c.thorough else 600)
    for (k, rng), b in zip(rngs(c, "b", len(bs)), bs):
        w = World(rng, kws=["a", "b"], data=["1", "2", "3"], lens=[0, 3, 15, 90], twin=False)
        eps.append(behaviour(w, b, [w.search(w.allkws(), arg="final")], mem=bool(k % 2)))
    eps += big_conc(c, 60 if not c.thorough else 600, kinds=("add", "del")) + storm(c, 60 if c.thorough else 12)
    tr = c.suite("behaviours", eps, "TraceConc", tags={"new"})
    c.need(sum(len(e["new"]) for t in tr for e in t["ev"] if e["t"] == "res") > 1000, "no new keyword")
    big_suite(c, {"new"}, n=1)


def big_conc(c, n, kinds=("add", "add", "del", "search"), dec=("go",), nc=(3, 4, 5), shared=True):
    """Random schedules of more clients and operations."""
    eps = []
    for k, rng in rngs(c, "big", n):
        # some of the values have many lines
        w = World(rng, kws=["a", "b", "c"][:rng.choice([1, 2, 3])], data=["1", "2"],
                  lens=[0, 3, 16, 90] if k % 5 else [700, 3000, 12000, 40000, 90000], twin=False)
        cl = ["x%d" % j for j in range(rng.choice(nc))]
        ops = {x: [random_op(w, rng, kinds=kinds) for _ in range(rng.choice([1, 2, 3]))] for x in cl}
        init = [random_op(w, rng, kinds=["add", "del"]) for _ in range(rng.choice([0, 0, 1, 2]))]
        eps.append(w.episode(init, clients=ops, sched=random_sched(rng, cl, 40, dec),
                             fin=[w.search(w.allkws(), arg="final")], mem=bool(k % 2), shared=shared and bool(k % 3 == 0), cb=k % 7 < 3))
    return eps


def storm(c, n):
    """A client that loses its upserts, many times in a row, to the others."""
    eps = []
    for k, rng in rngs(c, "storm", n):
        w = World(rng, kws=["a", "b", "c"][:rng.choice([1, 2, 3])], data=["1", "2"], lens=[0, 3, 16, 90], twin=False)
        cl = ["y%d" % j for j in range(rng.choice([1, 1, 2]))]
        rounds = [5, 9, 17, 33, 70, 140][k % 6]
        ops = {x: [random_op(w, rng, kinds=("add", "add", "del"), nmax=2) for _ in range(rounds // len(cl) + 1)] for x in cl}
        ops["x"] = [w.write(rng.choice(["add", "del"]), [[x, "d", rng.choice(w.data)] for x in w.kws])] * rng.choice([1, 2])
        # every operation of the others on a keyword of the loser
        for x in cl:
            for o in ops[x]:
                o["as"] = [[w.r("a"), "d", w.r(rng.choice(w.data))]] + o["as"][1:]
        init = [random_op(w, rng, kinds=["add", "del"]) for _ in range(rng.choice([0, 0, 1, 2]))]
        sch = [{"c": "x", "d": "go", "k": ""}]
        for _ in range(rounds):
            y = rng.choice(cl)
            sch += [{"c": y, "d": "go", "k": ""}] * rng.choice([3, 3, 3, 4]) + [{"c": "x", "d": "go", "k": ""}]
        eps.append(w.episode(init, clients=ops, sched=sch, fin=[w.search(w.allkws(), arg="final")], mem=bool(k % 2), shared=bool(k % 3 == 0)))
    return eps


# ------------------------------------------------------------------ P05 ----
LIN = {"lin", "lin.out", "invent", "conc.fail", "conc.wfail", "search.level"} | DEAD


def p05(c):
    c.mc("MC", "MCConc2", what="2 clients, all interleavings: linearizability, liveness")
    c.mc("MC", "MCConc3", what="3 clients")
    writers(c)
    if c.thorough:
        c.mc("MC", "MCConc3b", what="3 clients, 2 keywords")
        c.mc("MC", "MCConc22", what="2 clients, 2 operations each")
    bs = c.export("MCExport", "XConc2")
    bs += c.export("MCExport", "XConc3", sim=8000 if c.thorough else 600)
    bs += c.export("MCExport", "XConc3b", sim=8000 if c.thorough else 600)
    bs += c.export("MCExport", "XConc22", sim=8000 if c.thorough else 600)
    eps = []
    for (k, rng), b in zip(rngs(c, "b", len(bs)), bs):
        w = World(rng, kws=["a", "b"], data=["1", "2", "3"], lens=[0, 3, 15, 90], twin=False)
        eps.append(behaviour(w, b, [w.search(w.allkws(), arg="final")], mem=bool(k % 2), shared=bool(k % 3 == 0)))
    eps += big_conc(c, 1500 if c.thorough else 150) + storm(c, 180 if c.thorough else 24)
    tr = c.suite("behaviours", eps, "TraceConc", tags=LIN)
    c.need(max(e["calls"] for t in tr for e in t["ev"] if e["t"] == "res") > 60, "no write retried many times")
    c.need(sum(e["calls"] > 3 for t in tr for e in t["ev"] if e["t"] == "res") > 20, "no retried write")


# ------------------------------------------------------------------ P06 ----
FAULTS = ["fail", "failafter", "crash", "crashafter"]


def p06(c):
    c.mc("MC", "MCCrash", what="a fault anywhere, two clients")
    writers(c)
    if c.thorough:
        c.mc("MC", "MCCrash2", what="two faults")
    bs = c.export("MCExport", "XCrash", sim=15000 if c.thorough else 1200)
    if c.thorough:
        bs += c.export("MCExport", "XCrash2", sim=8000)
    eps = []
    for (k, rng), b in zip(rngs(c, "b", len(bs)), bs):
        w = World(rng, kws=["a", "b"], data=["1", "2", "3"], lens=[0, 3, 15, 90], twin=False)
        eps.append(behaviour(w, b, [w.search(w.allkws(), arg="final"), w.write("add", [["a", "d", "3"]]),
                                    w.write("del", [["a", "d", "1"], ["b", "d", "3"]]), w.search(w.allkws(), arg="final")], mem=bool(k % 2)))
    eps += big_conc(c, 1000 if c.thorough else 100, dec=("go",) * 12 + ("fail", "failafter", "crash", "crashafter"))
    tr = c.suite("behaviours", eps, "TraceConc", tags=LIN | {"aon", "conc.wfail"})
    # sequential: every call of every write, all kinds of faults, then normal life
    n = 1500 if c.thorough else 200
    eps = []
    for (k, rng), h in zip(rngs(c, "s", n), c.histories(n, 10, ["add", "add", "add", "del", "del"])):
        w = World(rng)
        ops = []
        for j, x in enumerate(h):
            o = inst(rng, op_of(w, x, rng))
            if rng.random() < .4:
                o["fault"] = {"at": rng.randrange(0, 4), "d": rng.choice(FAULTS), "n": rng.choice([0, 1, 1, 2])}
            ops.append(o)
            ops.append(w.probe(1))
        eps.append(w.episode(ops, mem=bool(k % 2)))
    for k, rng in rngs(c, "wide", 30 if c.thorough else 8):
        eps.append(wide_faults(rng, k))
    tr = c.suite("faults", eps, "TraceSeq", tags=SEARCH | DEAD | {"aon", "probe", "spurious"})
    st = [e["st"] for t in tr for e in t["ev"] if e["t"] == "res"]
    c.need(st.count("err") > 50 and st.count("crash") > 50, "no fault")


def wide_faults(rng, k):
    """Faults in modifications of many keywords or of many values."""
    if k % 2:
        w = World(rng, kws=["a", "b"], data=["v%d" % j for j in range(rng.choice([150, 420]))], lens=[5, 9, 20, 40], twin=False)
        full = [["a", "d", d] for d in w.data] + [["b", "d", d] for d in rng.sample(w.data, 9)]
    else:
        w = wide_world(rng, [130, 270, 40, 540][k // 2 % 4])
        full = [[x, "d", rng.choice(w.data)] for x in w.kws]
    ops = [w.write("add", rng.sample(full, len(full) // 3))] if rng.random() < .6 else []
    for j in range(4):
        at = rng.randrange(0, 3) if rng.random() < .6 else rng.randrange(3, 12)
        ops.append(inst(rng, w.write(rng.choice(["add", "add", "del"]), rng.sample(full, len(full) * 5 // 6),
                                     fault={"at": at, "d": rng.choice(FAULTS), "n": 1})))
        ops.append(w.probe(1))
    ops += [w.search([w.r(w.kws[0])], fault={"at": rng.randrange(0, 6), "d": rng.choice(["fail", "failafter"]), "n": 1}), w.search(w.allkws())]
    return w.episode(ops, mem=bool(k % 2))


# -------------------------------------------------- compactions: P07 - P11 ----
COMP = {"compact", "filter", "spurious"} | SEARCH | DEAD


def comp(w, old, new, rate, drop=(), adopt=True, probe=True, **kw):
    """A compaction whose outcome is settled by searches under both credentials."""
    o = w.compact(old, new, rate, drop, arg="probe" if probe else "", **kw)
    pre = [w.probe(old, "adopt"), w.probe(new, "adopt")] if adopt else []
    post = [w.probe(old), w.probe(new)] if probe else []
    return pre + [o] + post


def comp_world(rng, k, ncreds=4):
    """Same key with other labels, other keys with the same label, both."""
    keys = [{c: 1 for c in range(1, ncreds + 1)}, None, {c: 1 + c // 2 for c in range(1, ncreds + 1)}][k % 3]
    nk = rng.choice([1, 2, 3, 4, 6, 8, 11])
    nd = rng.choice([1, 2, 4, 12])
    return World(rng, kws=["k%d" % j for j in range(nk)], data=["d%d" % j for j in range(nd)], ncreds=ncreds, keys=keys,
                 lens=rng.choice([[0, 1, 3, 5], [0, 1, 15, 16, 17, 40], [0, 5, 79, 80, 81, 200, 300]]))


RATES = [0.0, -1.0, 1e-9, .05, .2, .5, .8, .99, 1.0, 1.0, 1.0, 7.5, 1e300]


def comp_hist(c, name, n, body, **kw):
    """Histories of modifications and compactions, larger than IndexGen's."""
    eps = []
    for k, rng in rngs(c, name, n):
        w = comp_world(rng, k)
        ops, cr = [], 1
        for _ in range(rng.randrange(1, 5)):
            for _ in range(rng.choice([1, 1, 2, 3, 5])):
                ops.append(inst(rng, random_op(w, rng, 1 + (cr - 1) % 4, kinds=["add", "add", "del"], nmax=rng.choice([2, 6, 20]), ptr=.3)))
            old, new = 1 + (cr - 1) % 4, 1 + cr % 4
            drop = rng.sample(w.data, rng.randrange(0, len(w.data) + 1)) if rng.random() < .4 else []
            ops += body(w, rng, old, new, rng.choice(RATES), drop)
            cr += 1
        ops += [w.search(w.allkws(), 1 + (cr - 1) % 4), w.search(w.allkws(), 1 + (cr - 2) % 4)]
        eps.append(w.episode(ops, mem=bool(k % 2), **kw))
    return eps


def wide_comp(c, n, body, **kw):
    """Compactions of many keywords, of long chains, of many values."""
    eps = []
    for k, rng in rngs(c, "wide", n):
        if k % 3 == 2:
            # a long chain under one keyword
            w = World(rng, kws=["a", "b"], data=["d%d" % j for j in range(6)], ncreds=2, twin=False, lens=[3, 16, 40])
            ops = [w.write(rng.choice(["add", "add", "del"]), [["a", "d", rng.choice(w.data)]]) for _ in range([150, 400][k % 2])]
        else:
            w = wide_world(rng, [70, 300, 130, 620][k % 4], ncreds=2)
            ops = wide_ops(w, rng) + wide_ops(w, rng)[1:]
        ops += body(w, rng, 1, 2, [1.0, 1.0, .3][k % 3], rng.sample(w.data, k % 2))
        ops += [w.search(w.allkws(), 1), w.search(w.allkws(), 2)]
        eps.append(w.episode(ops, mem=bool(k % 2), **kw))
    return eps


def p07(c):
    c.builds(False, True)
    c.mc("MC", "MCCompact", what="compactions of any rate and filter, batches of 2")
    c.mc("MC", "MCCompactB1", what="... batches of 1")
    c.mc("MC", "MCCompact2", what="modified and compacted again")
    n = 1500 if c.thorough else 160
    for hook in (False, True):
        eps = []
        for (k, rng), h in zip(rngs(c, "h%d" % hook, n), c.histories(n, 14, ["add", "add", "add", "del", "search", "full", "part", "part"])):
            w = World(rng, ncreds=4, keys=[{1: 1, 2: 1, 3: 1, 4: 1}, None, {1: 1, 2: 1, 3: 2, 4: 2}][k % 3])
            ops = []
            for x in h:
                o = inst(rng, op_of(w, x, rng))
                if o["op"] == "compact" and not (o["rate"] >= 1 and rng.random() < .3):
                    o["arg"] = "probe"
                    ops += [w.probe(x["cred"], "adopt"), w.probe(x["to"], "adopt"), o, w.probe(x["cred"]), w.probe(x["to"])]
                else:
                    ops.append(o)
            eps.append(w.episode(ops + [w.search(w.allkws(), cc) for cc in w.creds], mem=bool(k % 2)))
        tr = c.suite("histories%s" % ("-b3" if hook else ""), eps, "TraceSeq", tags=COMP, hook=hook)
        eps = comp_hist(c, "big%d" % hook, 900 if c.thorough else 120, lambda w, rng, old, new, rate, drop: comp(w, old, new, rate, drop))
        eps += wide_comp(c, [7, 4][hook] * (2 if c.thorough else 1), lambda w, rng, old, new, rate, drop: comp(w, old, new, rate, drop))
        tr += c.suite("large%s" % ("-b3" if hook else ""), eps, "TraceSeq", tags=COMP, hook=hook)
        flt = [len(e["in"]) for t in tr for e in t["ev"] if e["t"] == "flt"]
        c.need(sum(x > 1 for x in flt) > 50, "filters without data")
    for hook in (False, True):
        big_suite(c, {"search.out", "filter", "spurious"}, (1.0, .5, .1), big=3000 if hook else 30000, hook=hook)


def p08(c):
    c.builds(False, True)
    c.mc("MC", "MCCompact", what="MinimalOK: storage after a full compaction")
    n = 900 if c.thorough else 130

    def body(w, rng, old, new, rate, drop):
        if rate >= 1:
            return comp(w, old, new, rate, drop) + [snap("min")]
        return [w.probe(old, "adopt"), w.probe(new, "adopt"), snap("pre"), w.compact(old, new, rate, drop, arg="probe"), snap("post"), w.probe(old), w.probe(new)]

    for hook in (False, True):
        eps = comp_hist(c, "big%d" % hook, n, body) + wide_comp(c, [6, 3][hook], body)
        # after failed and interrupted writes too
        for k, rng in rngs(c, "f%d" % hook, n // 2):
            w = comp_world(rng, k)
            ops = []
            for _ in range(rng.randrange(2, 6)):
                o = random_op(w, rng, 1, kinds=["add", "add", "del"], nmax=6, ptr=.2)
                if rng.random() < .5:
                    o["fault"] = {"at": rng.randrange(0, 3), "d": rng.choice(FAULTS), "n": 1}
                ops += [o, w.probe(1)]
            ops += comp(w, 1, 2, 1.0) + [snap("min")]
            ops += [random_op(w, rng, 2, kinds=["add", "del"], nmax=6)] + comp(w, 2, 3, 1.0) + [snap("min")]
            eps.append(w.episode(ops, mem=bool(k % 2)))
        tr = c.suite("histories%s" % ("-b3" if hook else ""), eps, "TraceSeq", tags={"min.et", "min.ct", "grow"}, hook=hook)
        sn = [e for t in tr for e in t["ev"] if e["t"] == "snap"]
        c.need(sum(e["tag"] == "min" and e["ct"] > e["et"] > 1 for e in sn) > 30 and sum(e["tag"] == "post" for e in sn) > 30, "few compactions")
    for hook in (False, True):
        big_suite(c, {"min.et", "min.ct", "grow", "spurious"}, (1.0, .5, .1), big=3000 if hook else 30000, hook=hook)


def finals(w):
    return [w.search(w.allkws(), cc, arg="final") for cc in sorted(w.creds)]


def comp_meta(w):
    return {"finals": ["/".join(w.cred(cc)) for cc in sorted(w.creds)]}


def comp_behaviours(c, bs, name, mem=True):
    eps = []
    for (k, rng), b in zip(rngs(c, name, len(bs)), bs):
        w = World(rng, kws=["a", "b", "c"], data=["1", "2", "3"], ncreds=3, lens=[0, 3, 15, 90], twin=False, keys={1: 1, 2: 2, 3: 1})
        eps.append(behaviour(w, b, finals(w), meta=comp_meta(w), detail=1, mem=mem and bool(k % 2), shared=bool(k % 3 == 0)))
    return eps


LOST = {"lost", "split", "invent"} | DEAD


def p09(c):
    c.builds(False, True)
    c.mc("MC", "MCFault", what="a fault anywhere in a compaction: nothing is lost")
    c.mc("MC", "MCRetry", what="two compactions at once, faults: nothing is lost")
    c.mc("MC", "MCRetryForeign", expect="NoLoss", what="reverting a failure by deleting foreign entries loses data")
    c.mc("MC", "MCFaultDelFirst", expect="Recoverable", what="deleting the old entries first loses data")
    if c.thorough:
        c.mc("MC", "MCFault2", what="two faults, batches of 1")
    bs = c.export("MCExport", "XFault")
    bs += c.export("MCExport", "XRetry", sim=6000 if c.thorough else 700)
    if c.thorough:
        bs += c.export("MCExport", "XFault2", sim=6000)
    c.suite("behaviours", comp_behaviours(c, bs, "b"), "TraceComp", tags=LOST | {"lost.window"})
    # every call of compactions, in batches or not
    n = 1500 if c.thorough else 200
    for hook in (False, True):
        cnt = [0]

        def body(w, rng, old, new, rate, drop):
            cnt[0] += 1
            kw = {}
            if rng.random() < .2:
                kw["flterr"] = 1
            else:
                kw["fault"] = {"at": cnt[0] % (22 if hook else 9), "d": rng.choice(FAULTS), "n": rng.choice([0, 1, 1, 1, 2])}
            ops = [w.probe(old, "adopt"), w.probe(new, "adopt"), snap("chk"), w.compact(old, new, rate, drop, arg="probe", **kw), snap("chk"), w.probe(old), w.probe(new)]
            # retry, the same way or not
            if rng.random() < .7:
                ops += [w.compact(old, new, rate, drop, arg="probe"), w.probe(old), w.probe(new)]
            return ops

        eps = comp_hist(c, "f%d" % hook, n, body, detail=1)
        if not hook:
            eps += wide_comp(c, 40 if c.thorough else 10, body, detail=1)
        tr = c.suite("faults%s" % ("-b3" if hook else ""), eps, "TraceSeq", tags={"lost", "compact", "changed", "search.fed"} | DEAD, hook=hook)
        c.need(sum(e["t"] == "res" and e["hit"] > 0 for t in tr for e in t["ev"]) > n / 2, "few faults")
        # several compactions and searches at once, dying anywhere
        eps = []
        for k, rng in rngs(c, "par%d" % hook, n):
            w = comp_world(rng, k, ncreds=3)
            init = [random_op(w, rng, 1, kinds=["add", "add", "del"], nmax=10) for _ in range(rng.choice([1, 2, 3]))]
            cl = {"x": [w.compact(1, 2, 1.0)], "y": [w.compact(1, rng.choice([2, 3]), rng.choice([.5, 1.0]))],
                  "z": [w.search(w.allkws(), rng.choice([1, 2, 3])) for _ in range(3)]}
            sch = random_sched(rng, ["x", "y", "z"], rng.randrange(1, 40), ("go",) * 15 + ("fail", "failafter", "crash", "crashafter"))
            if rng.random() < .5:
                sch += [{"c": x, "d": "crashnow", "k": ""} for x in rng.choice([["x"], ["y"], ["x", "y"]])]
            eps.append(w.episode(init, clients=cl, sched=sch, fin=finals(w), meta=comp_meta(w), detail=1, mem=bool(k % 2), shared=bool(k % 3 == 0), cb=k % 7 < 3))
        c.suite("parallel%s" % ("-b3" if hook else ""), eps, "TraceComp", tags=LOST | {"lost.window"}, hook=hook)


def p10(c):
    c.builds(False, True)
    c.mc("MC", "MCCompact", what="OldEmpty, Rekeyed: nothing is left under the old credentials")
    n = 700 if c.thorough else 100
    for hook in (False, True):
        eps = []
        for k, rng in rngs(c, "h%d" % hook, n):
            w = comp_world(rng, k, ncreds=5)
            ops = []
            for cr in range(1, 5):
                for _ in range(rng.choice([1, 2, 4])):
                    ops.append(inst(rng, random_op(w, rng, cr, kinds=["add", "add", "del"], nmax=rng.choice([2, 8, 20]), ptr=.3)))
                rate = rng.choice(RATES)
                drop = rng.sample(w.data, 1) if rng.random() < .3 else []
                ops += [w.probe(cr, "adopt"), snap("all", True), w.compact(cr, cr + 1, rate, drop, arg="probe"),
                        snap("rekeyfull" if rate >= 1 else "rekeypart", True), w.probe(cr), w.probe(cr + 1)]
                if rng.random() < .5:
                    ops += [w.compact(cr + 1, cr + 1, rng.choice(RATES)), snap("chk")]
            eps.append(w.episode(ops, mem=bool(k % 2)))
        tr = c.suite("histories%s" % ("-b3" if hook else ""), eps, "TraceSeq", tags={"rekey.et", "rekey.ct", "refuse", "compact", "changed"} | DEAD, hook=hook)
        st = [e for t in tr for e in t["ev"] if e["t"] == "snap" and e["tag"].startswith("rekey")]
        c.need(sum(len(e["ctl"]) > 3 for e in st) > 50, "small indexes")
    for hook in (False, True):
        big_suite(c, {"rekey.et", "rekey.ct", "rekey.old", "spurious"}, (1.0, .5, .1), big=3000 if hook else 30000, hook=hook)


def views_by(t):
    """Parts of a trace: what was done under each of some credentials."""
    if any(e["t"] in ("die", "hang") for e in t["ev"]):
        return [t]
    out = []
    for cr in t["meta"]["views"]:
        cur, ev = {}, []
        for e in t["ev"]:
            if e["t"] == "inv":
                cur[e["c"]] = e["cred"] == cr
            if "c" not in e or cur.get(e["c"]):
                ev.append(e)
        out.append(dict(t, ev=ev))
    return out


def p11(c):
    c.builds(False, True)
    c.mc("MC", "MCAlone", what="a client under other credentials than those of a compaction running at the same time is alone")
    c.mc("MC", "MCAloneF", what="... even when the compaction fails or dies")
    c.mc("MC", "MCAloneNoCheck", expect="AloneOK", what="not without the check of the label")
    c.mc("MC", "MCLabels", what="two labels under one key")
    c.mc("MC", "MCLabelsNoCheck", expect="IsolationOK", what="without the check of the label")
    c.mc("MC", "MCAlien", what="two keys in the same tables")
    n = 900 if c.thorough else 150
    for hook in (False, True):
        for mode in ("labels", "keys", "rekey"):
            # two labels, two keys, or two labels until a compaction changes the key of one of them
            alien = mode == "keys"
            eps = []
            for k, rng in rngs(c, "h%d%s" % (hook, mode), n):
                w = World(rng, kws=["k%d" % j for j in range(rng.choice([1, 2, 4, 7]))], data=["d%d" % j for j in range(rng.choice([1, 2, 5]))],
                          ncreds=5, lens=[0, 1, 15, 16, 40], keys={1: 1, 2: 1, 3: 1, 4: 2, 5: 2} if alien else {1: 1, 2: 1, 3: 1, 4: 1, 5: 1 if mode == "labels" else 2})
                if alien and rng.random() < .5:
                    w.creds[4][1] = w.creds[1][1]
                live = [1, 2, 4] if alien else [1, 2, 3, 4] if mode == "labels" else [1, 2, 3]
                at, own = rng.randrange(2, 6) if mode == "rekey" else -1, alien
                free = [x for x in w.creds if x not in live]
                ops = []
                for j in range(rng.randrange(4, 14)):
                    q = rng.random()
                    if j == at:
                        old = rng.choice(live)
                        if rng.random() < .7:
                            w.creds[5][1] = w.creds[old][1]
                        ops += [snap("chk"), w.compact(old, 5, rng.choice(RATES), arg="probe"), snap("chk"), w.probe(old), w.probe(5)]
                        live = [x for x in live if x != old] + [5]
                        free, own = [4], True
                    elif q < .55 or j < at:
                        ops.append(inst(rng, random_op(w, rng, rng.choice(live), kinds=["add", "add", "del"], nmax=5, ptr=.3)))
                    elif q < .7:
                        ops.append(w.search(w.allkws(), rng.choice(list(w.creds))))
                    else:
                        old, new = rng.choice(live), rng.choice(free)
                        ops += [snap("chk"), w.compact(old, new, rng.choice(RATES), arg="probe"), snap("chk"), w.probe(old), w.probe(new)]
                        if not own:
                            live.remove(old)
                            live.append(new)
                            free.remove(new)
                            free.append(old)
                        # (with alien entries, a refused compaction leaves both as they are)
                ops += [w.search(w.allkws(), cc) for cc in w.creds]
                eps.append(w.episode(ops, mem=bool(k % 2), detail=1, meta={"onebatch": not hook}))
            tr = c.suite("%s%s" % (mode, "-b3" if hook else ""), eps, "TraceSeq",
                         tags=SEARCH | DEAD | {"compact", "lost", "changed", "new", "spurious"}, hook=hook)
            if mode != "labels":
                c.need(sum(e["t"] == "res" and e["st"] == "err" for t in tr for e in t["ev"]) > 20, "no refused compaction")
        # at the same time: what each index sees is judged as if it was alone
        eps = []
        bs = c.export("MCExport", "XAlone", sim=4000 if c.thorough else 250) if not hook else []
        for (k, rng), b in zip(rngs(c, "b", len(bs)), bs):
            w = World(rng, kws=["a", "b"], data=["1", "2", "3"], ncreds=4, lens=[0, 3, 15, 90], twin=False, keys={1: 1, 2: 2, 3: 1, 4: 4})
            eps.append(behaviour(w, b, [w.search(w.allkws(), cc, arg="final") for cc in (2, 3)], mem=bool(k % 2),
                                 meta={"views": ["/".join(w.cred(x)) for x in (2, 3)]}))
        for k, rng in rngs(c, "par%d" % hook, n // 2):
            keys = [{1: 1, 2: 1, 3: 1, 4: 1}, {1: 1, 2: 1, 3: 1, 4: 2}, {1: 1, 2: 2, 3: 1, 4: 1}, {1: 1, 2: 2, 3: 1, 4: 2}][k % 4]
            w = World(rng, kws=["a", "b", "c"][:rng.choice([1, 2, 3])], data=["1", "2"], ncreds=4, lens=[0, 3, 15, 90], keys=keys)
            init = [random_op(w, rng, cr, kinds=["add", "add", "del"]) for cr in (1, 3, 4) for _ in range(rng.randrange(3))]
            cl = {"x": [w.compact(1, 2, rng.choice([.3, 1.0, 1.0]), rng.sample(w.data, rng.choice([0, 1])))] * rng.choice([1, 2])}
            for j, cr in enumerate([3, 3, 4, 4][:rng.choice([1, 2, 3, 4])]):
                cl["y%d" % j] = [random_op(w, rng, cr) for _ in range(rng.choice([1, 2, 3]))]
            cl["z"] = [random_op(w, rng, rng.choice([1, 2])) for _ in range(rng.randrange(3))]
            sch = random_sched(rng, sorted(cl), 60)
            for s in sch:
                if s["c"] == "x" and rng.random() < .1:
                    s["d"] = rng.choice(FAULTS)
            eps.append(w.episode(init, clients=cl, sched=sch, fin=[w.search(w.allkws(), cc, arg="final") for cc in (3, 4)], mem=bool(k % 2),
                                 shared=bool(k % 3 == 0), cb=k % 7 < 3, meta={"views": ["/".join(w.cred(x)) for x in (3, 4)]}))
        c.suite("parallel%s" % ("-b3" if hook else ""), eps, "TraceConc", tags=LIN | {"new"}, hook=hook, views=views_by)


# ------------------------------------------------------------------ P12 ----
def twin_op(o, ren, cred, flip, types=()):
    """The same operation about other bytes, under other credentials."""
    t = dict(o)
    if o["op"] in ("add", "del") and flip and flip.random() < .5:
        t["op"] = "del" if o["op"] == "add" else "add"
    if "as" in o:
        t["as"] = [[ren(k), {"d": "p", "p": "d"}[y] if v in types else y, ren(v)] for k, y, v in o["as"]]
    for f in ("kws", "drop"):
        if f in o:
            t[f] = [ren(x) for x in o[f]]
    for f in ("cred", "new"):
        if f in o:
            t[f] = [x + "~" for x in o[f]]
    return t


def twins(w, rng, ops, flip=False, pointers=False, types=()):
    """Episode with two executions of the same shape."""
    same = rng.random() < .25
    by = dict(w.bytes)
    used = set(by.values())
    for x, b in w.bytes.items():
        while True:
            # other bytes, other length, same number of blocks
            n = len(b)
            if x not in w.kws or pointers:
                lo = (n + 1) // 16 * 16 - 1
                n = n if same else max(0, rng.randrange(lo, lo + 16))
            else:
                n = rng.choice([0, 1, 5, 16, 300])
            y = rbytes(rng, n, rng.randrange(9))
            if n < 8:
                y = rbytes(rng, n, 8)
            if y not in used:
                break
            same = same and rng.random() < .9
        used.add(y)
        by[x + "~"] = y
    f = rng if flip else None
    half2 = [twin_op(o, lambda x: x + "~", None, f, types) for o in ops]
    ids = sorted(x for x in by if len(by[x]) >= 8)
    keys = sorted({c[0] for c in w.creds.values()})
    return dict(bytes={k: b.hex() for k, b in by.items()}, init=ops + [{"op": "clear"}, {"op": "mark", "arg": "twin"}] + half2,
                detail=2, secrets=ids + ["key:" + k for k in keys] + ["key:" + k + "~" for k in keys], meta={"none": 0}, fin=[])


def p12(c):
    c.mc("ViewMC", "VwFlip", what="two executions side by side, additions turned into deletions: same view")
    c.mc("ViewMC", "VwType", what="... pointers turned into data")
    c.mc("ViewMC", "VwRen", what="... keywords renamed, searches and compactions included")
    if c.thorough:
        for x in ("VwFlip3", "VwRen3", "VwRen4"):
            c.mc("ViewMC", x, what="longer")
    for x, y in (("VwDelSkip", "deletions of unknown keywords not sent"), ("VwDedup", "known values not sent"), ("VwDelShort", "shorter deletions"),
                 ("VwEarly", "searches stopping early"), ("VwPtrCheck", "targets of pointers looked up"), ("VwPad", "longer pointers")):
        c.mc("ViewMC", x, expect="SameView", what="a design that tells more: " + y)
    n = 1200 if c.thorough else 160
    eps = []
    for k, rng in rngs(c, "flip", n):
        w = World(rng, kws=["a", "b", "c"][:1 + k % 3], data=["1", "2", "3", "4"], ncreds=1, lens=[0, 1, 8, 14, 15, 16, 17, 30, 31, 79, 80, 81, 300], twin=False, nearkeys=False)
        ops = []
        for _ in range(rng.randrange(2, 9)):
            # without searches, pointers and data are the same too
            o = inst(rng, random_op(w, rng, kinds=("add", "del", "search") if k % 3 else ("add", "del"), nmax=6, ptr=0))
            if rng.random() < .15:
                o["fault"] = {"at": rng.randrange(0, 3), "d": rng.choice(FAULTS), "n": 1}
            ops.append(o)
        eps.append(twins(w, rng, ops, flip=True, types=() if k % 3 else rng.sample(w.data, rng.randrange(len(w.data) + 1))))
    for k, rng in rngs(c, "ren", n):
        w = World(rng, kws=["a", "b", "c"], data=["1", "2", "3"], ncreds=3, lens=[0, 1, 8, 14, 15, 16, 17, 30, 31, 79, 80, 81, 300], twin=False, nearkeys=False,
                  keys=[{1: 1, 2: 1, 3: 1}, {1: 1, 2: 2, 3: 3}][k % 2])
        ops, cr = [], 1
        for _ in range(rng.randrange(3, 9)):
            if cr < 3 and rng.random() < .2:
                ops.append(w.compact(cr, cr + 1, 1.0, rng.sample(w.data, rng.choice([0, 1, 3]))))
                cr += 1
            else:
                ops.append(inst(rng, random_op(w, rng, cr, nmax=6, ptr=.4)))
        ops.append(w.search(w.allkws(), cr))
        eps.append(twins(w, rng, ops, pointers=True))
    tr = c.suite("twins", eps, "TraceView")
    c.need(sum(e["t"] == "db" for t in tr for e in t["ev"]) > 2000, "no storage access")


# ------------------------------------------------------------------ P13 ----
def p13(c):
    c.builds(False, True)
    c.mc("MC", "MCConc2", what="tokens of the lines are fresh in every interleaving")
    n = 700 if c.thorough else 110
    for hook in (False, True):
        eps = []
        for k, rng in rngs(c, "h%d" % hook, n):
            # credentials are never used again once abandoned: an interrupted
            # compaction leaves the same chain under both of them
            w = comp_world(rng, k, ncreds=10)
            ops, cr = [{"op": "detail", "n": 2}], 1
            for _ in range(rng.randrange(1, 4)):
                last = None
                for _ in range(rng.randrange(1, 6)):
                    o = inst(rng, random_op(w, rng, cr, kinds=["add", "add", "del"], nmax=6, ptr=.3))
                    if last and rng.random() < .3:
                        o = inst(rng, dict(last))
                        o.pop("fault", None)
                    if rng.random() < .2:
                        o["fault"] = {"at": rng.randrange(0, 4), "d": rng.choice(FAULTS), "n": 1}
                    last = o
                    ops.append(o)
                o = w.compact(cr, cr + 1, rng.choice(RATES), rng.sample(w.data, 1) if rng.random() < .3 else [])
                if rng.random() < .3:
                    # fails and is retried, the same way
                    f = dict(o)
                    f["fault"] = {"at": rng.randrange(0, 9), "d": rng.choice(FAULTS), "n": 1}
                    ops.append(f)
                ops.append(o)
                cr += 1
                if rng.random() < .3:
                    # emptied keywords, created again
                    ops += [w.write("del", [[x, "d", d] for x in w.kws for d in w.data], cr), w.compact(cr, cr + 1, 1.0)]
                    cr += 1
            ops += [w.write("add", [[x, "d", d] for x in w.kws for d in w.data], cr)] * 2
            eps.append(w.episode(ops, mem=bool(k % 2)))
        for e in big_conc(c, n // 2, kinds=("add", "add", "del"), dec=("go",) * 9 + ("fail", "failafter", "crash")):
            e["detail"] = 2
            eps.append(e)
        if not hook:
            eps.append({"init": [{"op": "keygen", "n": 400}]})
        tr = c.suite("histories%s" % ("-b3" if hook else ""), eps, "TraceFresh", hook=hook)
        c.need(sum(len(e["new"]) for t in tr for e in t["ev"] if e["t"] == "db") > 4000, "few values sent")
    # more lines than a short counter would tell apart
    for hook in (False, True):
        tr = big_suite(c, {"fresh"}, (1.0, .5, .1), big=3000 if hook else 70000, hook=hook, shape=0)
        c.need(hook or max(e["sent"] for t in tr for e in t["ev"] if e["t"] == "mass") > 2 * 65536, "few values sent")


# ------------------------------------------------------------------ P14 ----
def edx_episodes(es, all_toks):
    eps = []
    for e in es:
        o = e["op"]
        ops = ([{"op": "load" if len(eps) % 2 else "insert", "new": e["pre"]}] if e["pre"] else []) + [
            {"op": o["op"], "new": o["new"], "old": o["old"], "tok": o["tok"]}, {"op": "dump"}, {"op": "fetch", "tok": all_toks}]
        eps.append({"ops": ops})
    return eps


def p14(c):
    c.mc("EdxMC", "EdxMC", envx={"OUT": ""}, what="the storage contract, all operations on all tables of 2 tokens")
    es = c.export("EdxMC", "EdxMC3" if c.thorough else "EdxMC")
    eps = edx_episodes(es, ["t1", "t2", "t3"])
    # long random sequences over more tokens
    for k, rng in rngs(c, "s", 3000 if c.thorough else 300):
        nt, nv = rng.choice([(2, 2), (4, 2), (8, 3), (40, 4)])
        tk, vl = ["t%d" % j for j in range(nt)], ["v%d" % j for j in range(nv)]

        def mp(p):
            return [[t, rng.choice(vl)] for t in tk if rng.random() < p]
        ops, known = [], {}
        for _ in range(rng.randrange(5, 30)):
            o = rng.choice(["insert", "insert", "upsert", "upsert", "upsert", "fetch", "delete", "dump", "len", "reload", "load", "flush"])
            if o in ("load", "flush") and rng.random() < .7:
                o = "upsert"
            x = {"op": o}
            if o == "insert":
                m = mp(rng.choice([.2, .5]))
                x["new"] = [p for p in m if p[0] not in known] if rng.random() < .7 else m
                if all(p[0] not in known for p in x["new"]):
                    known.update(x["new"])
            elif o == "upsert":
                x["new"] = mp(rng.choice([.2, .6, 1.0]))
                x["old"] = []
                for t, _ in x["new"]:
                    q = rng.random()
                    if t in known and q < .75:
                        x["old"].append([t, known[t]])
                    elif (t in known and q < .9) or q < .03:
                        x["old"].append([t, rng.choice(vl)])
                if all(t in known for t, _ in x["old"]):
                    for t, v in x["new"]:
                        if known.get(t) == dict(x["old"]).get(t):
                            known[t] = v
            elif o == "load":
                x["new"] = mp(.5)
                known = dict(x["new"])
            elif o == "flush":
                known = {}
            elif o in ("fetch", "delete"):
                x["tok"] = [t for t in tk if rng.random() < .4]
                if o == "delete":
                    for t in x["tok"]:
                        known.pop(t, None)
            ops.append(x)
        eps.append({"ops": ops})
    tr = c.suite("contract", eps, "TraceEdx", cmd="edx")
    ups = [e for t in tr for e in t["ev"] if e.get("op") == "upsert"]
    c.need(sum(bool(e["ret"]) for e in ups) > 100 and sum(e["st"] == "err" for e in ups) > 50 and
           sum(e["st"] == "ok" and bool(e["old"]) for e in ups) > 100, "upserts never rejected")
    eps = []
    for k, rng in rngs(c, "thr", 600 if c.thorough else 80):
        eps.append({"ops": [{"op": "threads", "n": rng.choice([1, 30, 300, 600]), "threads": rng.choice([2, 3, 4]), "rounds": 12, "seed": rng.randrange(1, 2**60)}]})
    tr = c.suite("threads", eps, "TraceEdxLin", cmd="edx")
    # whole indexes saved and loaded
    eps = []
    for k, rng in rngs(c, "r", 300 if c.thorough else 60):
        w = comp_world(rng, k)
        ops = []
        for _ in range(rng.randrange(1, 6)):
            ops += [inst(rng, random_op(w, rng, nmax=12)), {"op": "reload"}]
        ops += [w.search(w.allkws())]
        eps.append(w.episode(ops, mem=True))
    c.suite("reload", eps, "TraceSeq", tags={"reload", "search.fed", "search.miss", "search.out", "new"} | DEAD)


# ------------------------------------------------------------------ P15 ----
def p15(c):
    c.builds(False, True)
    c.mc("MC", "MCCrash", what="faults anywhere in additions, deletions and searches")
    c.mc("MC", "MCFault", what="faults anywhere in compactions")
    for hook in (False, True):
        eps = []
        for k, rng in rngs(c, "f%d" % hook, 1500 if c.thorough else 260):
            w = comp_world(rng, k, ncreds=3)
            keys = len({x[0] for x in w.creds.values()})
            ops = [{"op": "detail", "n": 1}]
            for _ in range(rng.randrange(1, 4)):
                ops.append(inst(rng, random_op(w, rng, 1, kinds=["add", "add", "del"], nmax=rng.choice([2, 8]), ptr=.4)))

            def fault(at):
                return {"at": at, "d": rng.choice(["fail", "failafter"]), "n": rng.choice([0, 1, 1, 1, 2])}
            # every kind of operation
            at = k // 4
            kind = k % 4
            if kind == 0:
                for j in range(5):
                    o = random_op(w, rng, 1, kinds=["add", "del"], nmax=4, ptr=.4)
                    o["fault"] = fault(j)
                    ops += [o, w.probe(1)]
            elif kind == 1:
                for j in range(7):
                    o = w.search(rng.sample(w.allkws(), rng.randrange(1, len(w.kws) + 1)), fault=fault(j))
                    if rng.random() < .3:
                        o["interr"] = rng.randrange(1, 4)
                    ops.append(o)
            else:
                o = w.compact(1, 2, rng.choice(RATES), rng.sample(w.data, 1) if rng.random() < .3 else [], arg="probe")
                if rng.random() < .2:
                    o["flterr"] = rng.choice([1, 1, 2])
                else:
                    o["fault"] = fault(at % (24 if hook else 9))
                ops += [w.probe(1, "adopt"), w.probe(2, "adopt"), o, w.probe(1), w.probe(2)]
                # whatever happened, later operations say what they do
                ops += [random_op(w, rng, rng.choice([1, 2]), kinds=["add", "del"], nmax=4), w.search(w.allkws(), 1), w.search(w.allkws(), 2)]
                o = w.compact(1, 2, rng.choice(RATES), arg="probe", fault=fault(rng.randrange(9)))
                ops += [w.probe(1, "adopt"), w.probe(2, "adopt"), o, w.probe(1), w.probe(2)]
            eps.append(w.episode(ops, mem=bool(k % 2)))
        eps += [wide_faults(rng, k) for k, rng in rngs(c, "wide%d" % hook, 20 if c.thorough else 4)]
        tr = c.suite("faults%s" % ("-b3" if hook else ""), eps, "TraceSeq", tags={"swallow", "spurious"} | DEAD, hook=hook)
        hit = [e for t in tr for e in t["ev"] if e["t"] == "res" and e["hit"]]
        c.need(len(hit) > 150, "few faults")
        c.cov["samples"].append({"operations_hit_by_a_fault": len(hit)})
    eps = big_conc(c, 900 if c.thorough else 100, dec=("go",) * 9 + ("fail", "failafter")) + storm(c, 6)
    c.suite("concurrent", eps, "TraceConc", tags={"swallow", "conc.wfail", "conc.fail"} | DEAD)
    eps = []
    for k, rng in rngs(c, "par", 600 if c.thorough else 80):
        w = comp_world(rng, k, ncreds=3)
        init = [random_op(w, rng, 1, kinds=["add", "add", "del"], nmax=10) for _ in range(2)]
        cl = {"x": [w.compact(1, 2, rng.choice(RATES))], "y": [w.compact(1, 3, 1.0)],
              "z": [w.search(w.allkws(), rng.choice([1, 2, 3])) for _ in range(3)],
              "t": [random_op(w, rng, rng.choice([1, 2]), kinds=["add", "del"]) for _ in range(2)]}
        eps.append(w.episode(init, clients=cl, sched=random_sched(rng, sorted(cl), 40, ("go",) * 15 + ("fail", "failafter")),
                             fin=finals(w), meta=comp_meta(w), detail=1, mem=bool(k % 2), shared=bool(k % 3 == 0), cb=k % 7 < 3))
    c.suite("compactions", eps, "TraceComp", tags={"swallow", "conc.fail"} | DEAD)


# ------------------------------------------------------------------ P16 ----
def p16(c):
    c.mc("MC", "MCCompact", what="reads give what is stored")
    c.mc("TamperMC", "TamMC", what="one line altered, or replaced by a line of another chain or of another index")
    if c.thorough:
        c.mc("TamperMC", "TamMC2", what="two lines")
    for x, y in (("TamEntry", "entries of one key are interchangeable (out of the property)"), ("TamSwap", "so are the lines of one chain"),
                 ("TamRemove", "and lines can be removed")):
        c.mc("TamperMC", x, expect="NeverMisread", what=y)
    # behaviours of Tamper.tla: values of one or two lines
    bs = c.export("TamperMC", "XTam")
    c.rng.shuffle(bs)
    eps = []
    for (k, rng), b in zip(rngs(c, "x", len(bs)), bs if c.thorough else bs[:600]):
        w = World(rng, kws=["a", "b"], data=["1", "2"], ncreds=3, lens=[1, 16, 40, 77, 78], keys={1: 1, 2: 2, 3: 3}, twin=False)
        w.bytes.update(concretize(rng, ["121", "211"], [79, 80, 100, 130, 157]))
        nm = lambda v: "".join(map(str, v))
        wr = lambda o: w.write(o["op"], [[o["k"], "d", nm(o["v"])]], o["cred"])
        ops = [wr(o) for o in b["hist"]]
        for a in b["alter"]:
            ops.append({"op": "tamper", "cred": w.cred(a["t"][0]), "new": w.cred(a["u"][0]), "kws": [a["t"][1], a["u"][1]], "n": a["i"],
                        "stop": rng.randrange(0, 10000), "arg": "flip" if a["how"] == "flip" else "move:%d" % a["j"]})
        ops.append(snap("chk"))
        for o in b["prog"]:
            ops += [w.search(o["kws"], o["cred"]) if o["op"] == "search" else w.compact(o["cred"], o["new"]) if o["op"] == "compact" else wr(o), snap("chk")]
        eps.append(w.episode(ops, mem=bool(k % 2)))
    tr = c.suite("behaviours", eps, "TraceTamper")
    c.need(all(e["done"] for t in tr for e in t["ev"] if e["t"] == "tamper"), "a line of the specification does not exist")
    eps = [{"init": [{"op": "sizes"}], "meta": {"sizes": [108, 114, 32]}}]
    for k, rng in rngs(c, "t", 2500 if c.thorough else 330):
        w = World(rng, kws=["a", "b", "c", "e"], data=["1", "2", "3"], ncreds=3, lens=[0, 1, 15, 16, 17, 60, 100, 200], keys={1: 1, 2: 2, 3: 3})
        ops = []
        for _ in range(rng.randrange(2, 5)):
            ops.append(random_op(w, rng, 1, kinds=["add", "add", "del"], nmax=5, ptr=.3))
        ops.append(w.write("add", [[x, "d", rng.choice(w.data)] for x in w.kws]))
        # without another index in the same tables, compactions go through
        other = k % 2 == 0
        if other:
            ops.append(w.write("add", [[x, "d", rng.choice(w.data)] for x in w.kws], 2))
        for _ in range(rng.choice([1, 1, 1, 2])):
            mode = rng.choice(["flip"] * 6 + (["alien"] if other else []) + ["cross"])
            ops.append({"op": "tamper", "cred": w.cred(1), "new": w.cred(2), "kws": [rng.choice(w.allkws()), rng.choice(w.allkws())],
                        "n": rng.choice([0, 0, 1, 2]), "stop": k % 114 if rng.random() < .7 else rng.randrange(0, 10000), "arg": mode})
        ops += [snap("chk"), w.search(w.allkws()), snap("chk")] + [w.search([x]) for x in w.allkws()] + [snap("chk")]
        ops += [w.search(w.allkws(), 2)]
        for _ in range(3):
            ops += [random_op(w, rng, 1, kinds=["add", "del"], nmax=2, ptr=.3), snap("chk")]
        ops += [w.search([x]) for x in w.allkws()]
        ops += [w.compact(1, 3, rng.choice([.3, 1.0, 1.0]), rng.sample(w.data, rng.choice([0, 1])))]
        ops += [w.search([x], cc) for x in w.allkws() for cc in (1, 3)]
        eps.append(w.episode(ops, mem=rng.random() < .5, meta={"sizes": [108, 114, 32]}))
    tr = c.suite("altered", eps, "TraceTamper")
    c.need(sum(e["t"] == "tamper" and e["done"] for t in tr for e in t["ev"]) > 250, "few altered lines")
    c.need(sum(e["t"] == "res" and e["st"] == "err" for t in tr for e in t["ev"]) > 250, "nothing failed")


# ------------------------------------------------------------------ P17 ----
def replica_op(w, o, cred=1):
    if o["op"] == "search":
        return w.search([w.r(k) for k in o["kws"]], cred)
    if o["op"] == "compact":
        return w.compact(cred, 3 - cred)
    return w.write(o["op"], [[k, v[0], v[1]] for k, vs in sorted(o["as"].items()) for v in vs], cred)


def several_entries(b):
    """Tells whether the merge leaves a keyword with several entries."""
    wr = lambda ops: {k for o in ops for k in o["as"]}
    for k in wr(b["common"]).union(*map(wr, b["halves"])):
        n = sum(k in wr(h) for h in b["halves"])
        if n + (k in wr(b["common"]) and n < len(b["halves"])) > 1 or b["bag"] and k in wr(b["common"]):
            return True
    return False


def p17(c):
    c.mc("MC", "MCGraph", what="searches are the closure of what is stored")
    c.mc("ReplicasMC", "RepInd", what="two independent replicas merged, then three operations")
    c.mc("ReplicasMC", "RepThree", what="three replicas")
    c.mc("ReplicasMC", "RepFork", what="two forked replicas that do not extend the same chain")
    c.mc("ReplicasMC", "RepBag", what="... in a storage that keeps the identical values too")
    c.mc("ReplicasMC", "RepConc", what="two clients at once on merged replicas")
    c.mc("ReplicasMC", "RepNoUnion", expect="UnionOK", what="reading one of the entries is not enough")
    c.mc("ReplicasMC", "RepNoRefuse", expect="UnionOK", what="writing over one of the entries is not right")
    c.mc("ReplicasMC", "RepCollide", expect="UnionOK", what="forked replicas that extend the same chain cannot be merged (out of the property)")
    # behaviours of Replicas.tla
    eps = []
    bs = []
    for x in ("XRepInd", "XRepThree", "XRepFork", "XRepBag"):
        b = c.export("ReplicasMC", x)
        for y in b:
            y["bag"] = x == "XRepBag"
        c.rng.shuffle(b)
        bs += b if c.thorough else b[:200]
    for (k, rng), b in zip(rngs(c, "x", len(bs)), bs):
        w = World(rng, kws=["a", "b"], data=["1", "2"], ncreds=2, lens=[0, 1, 15, 16, 17, 40], keys=[{1: 1, 2: 1}, {1: 1, 2: 2}][k % 2])
        fin, cr = [], 1
        for o in b["prog"]["x"]:
            fin += [snap("chk"), replica_op(w, o, cr), snap("chk")]
            if o["op"] == "compact" and not several_entries(b):
                cr = 3 - cr
        fin += [w.search(w.allkws(), 1), w.search(w.allkws(), 2)]
        eps.append(w.episode([replica_op(w, o) for o in b["common"]], merge=[[replica_op(w, o) for o in h] for h in b["halves"]],
                             fork=bool(b["common"]), bag=b["bag"], fin=fin, mem=bool(k % 2), meta={"live": "/".join(w.cred(1))}))
    c.suite("behaviours", eps, "TraceMulti")
    # random replicas
    eps = []
    for k, rng in rngs(c, "m", 2000 if c.thorough else 400):
        w = World(rng, kws=["k%d" % j for j in range(rng.choice([1, 2, 3, 5, 9]))], data=["1", "2", "3"], ncreds=2, lens=[0, 1, 15, 16, 17, 90],
                  keys=[{1: 1, 2: 1}, {1: 1, 2: 2}][k % 2])
        fork, n = k % 3 == 2, rng.choice([2, 2, 2, 3, 4])
        mk = lambda a, b: [random_op(w, rng, 1, kinds=["add", "add", "del"], nmax=4, ptr=.3) for _ in range(rng.randrange(a, b))]
        init = mk(1 if fork else 0, 4)
        # forked replicas do not extend the same chains
        own = {a[0]: rng.randrange(n) for o in init for a in o["as"]} if fork else {}
        halves = []
        for j in range(n):
            h = mk(0 if j == 0 else 1, 5)
            for o in h:
                o["as"] = [a for a in o["as"] if own.get(a[0], j) == j]
            halves.append([o for o in h if o["as"]])
        fin = []
        for _ in range(rng.randrange(3, 8)):
            q = rng.random()
            if q < .4:
                fin.append(w.search(rng.sample(w.allkws(), rng.randrange(1, len(w.kws) + 1))))
            else:
                fin += [snap("chk"), random_op(w, rng, 1, kinds=["add", "del"], nmax=rng.choice([1, 1, 3]), ptr=.3), snap("chk")]
        fin += [w.search(w.allkws()), snap("chk"), w.compact(1, 2, rng.choice([.3, 1.0])), snap("chk"),
                w.search(w.allkws(), 1), w.search(w.allkws(), 2)]
        eps.append(w.episode(init, merge=halves, fork=fork, bag=bool(k % 4 == 1 or k % 5 == 2), fin=fin, mem=bool(k % 2), meta={"live": "/".join(w.cred(1))}))
    tr = c.suite("merged", eps, "TraceMulti")
    c.need(sum(e["t"] == "merged" and e["et"] for t in tr for e in t["ev"]) > 100, "few conflicts")


# ------------------------------------------------------------------ P18 ----
def p18(c):
    c.mc("CodecMC", "CodecMC", what="decoding what was encoded gives the values back, whatever the splitting and the order")
    eps = []
    for k, rng in rngs(c, "l", 1500 if c.thorough else 200):
        w = comp_world(rng, k, ncreds=2) if k % 3 else World(rng, kws=["a", "b"], data=["1", "2", "3", "4"], ncreds=2)
        ops, cr = [], 1
        for _ in range(rng.randrange(2, 7)):
            if rng.random() < .15:
                ops.append(w.compact(cr, 3 - cr, 1.0))
                cr = 3 - cr
            else:
                ops.append(inst(rng, random_op(w, rng, cr, kinds=["add", "add", "del"], nmax=5, ptr=.3)))
            ops += [{"op": "layout", "cred": w.cred(x), "kws": w.allkws()} for x in (1, 2)]
        eps.append(w.episode(ops, mem=bool(k % 2), meta={"raw": {x: list(b) for x, b in w.bytes.items()}}))
    tr = c.suite("layout", eps, "TraceLayout")
    c.need(sum(len(e["lines"]) for t in tr for e in t["ev"] if e["t"] == "layout") > 1000, "few lines")
    # indexes written by the first version
    seq, lay = [], []
    for k, rng in rngs(c, "golden", 80 if c.thorough else 16):
        g = ["g1", "g2"][k % 2]
        d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "golden")
        gm = json.load(open(os.path.join(d, g + ".meta.json")))
        w = World(rng, kws=gm["kws"], data=gm["data"])
        w.ren, w.bytes = gm["ren"], {x: bytes.fromhex(b) for x, b in gm["bytes"].items()}
        w.creds = {int(x): y for x, y in gm["creds"].items()}
        live = sorted(w.creds) if g == "g1" else [3]
        n = max(w.creds) + 1
        w.creds[n] = [w.creds[live[0]][0], "L%d" % n]
        w.bytes["L%d" % n] = b"another label"
        load = {"op": "load", "arg": os.path.join(d, g + ".json")}
        meta = {"m0": gm["m0"]}
        ops = [load] + [w.search(w.allkws(), x) for x in live]
        lops = [load] + [{"op": "layout", "cred": w.cred(x), "kws": w.allkws()} for x in live]
        for _ in range(4):
            o = inst(rng, random_op(w, rng, rng.choice(live), kinds=["add", "add", "del"], nmax=8, ptr=.2))
            ops += [o, w.search(w.allkws(), rng.choice(live))]
            lops += [o, {"op": "layout", "cred": o["cred"], "kws": w.allkws()}]
        o = w.compact(live[0], n, 1.0)
        ops += [o] + [w.search(w.allkws(), x) for x in sorted(w.creds)]
        lops += [o] + [{"op": "layout", "cred": w.cred(x), "kws": w.allkws()} for x in sorted(w.creds)]
        seq.append(w.episode(ops, mem=bool(k % 4 > 1), meta=meta))
        lay.append(w.episode(lops, mem=bool(k % 4 > 1), meta={"raw": {x: list(b) for x, b in w.bytes.items()}, **meta}))
    c.suite("golden", seq, "TraceSeq", tags=SEARCH | DEAD | {"spurious", "compact", "new"})
    c.suite("golden-layout", lay, "TraceLayout")


# ------------------------------------------------------------------ P19 ----
def p19(c):
    c.builds(False, True)
    c.mc("MC", "MCCompact", what="any set of chains may be selected by a partial compaction")
    c.mc("Sampling", "SamMC", what="random draws: everything is eventually drawn")
    c.mc("Sampling", "SamLeast", what="... with one draw per compaction")
    c.mc("Sampling", "SamZero", expect="Eventually", what="not when a compaction may draw nothing")
    c.mc("Sampling", "SamHead", expect="Eventually", what="not when an entry is out of reach")
    for hook in (False, True):
        eps = []
        for k, rng in rngs(c, "r%d" % hook, 150 if c.thorough else 36):
            nk = [1, 2, 3, 4, 5, 6, 8, 12][k % 8]
            rate = [1e-9, .001, .01, .1, .3, .7][(k // 8) % 6]
            w = World(rng, kws=["k%d" % j for j in range(nk)], data=["d1", "d2", "d3"], ncreds=2, lens=[0, 1, 15, 16, 40], keys={1: 1, 2: 1 + k % 2}, twin=False)
            ops = []
            # something to compact everywhere: duplicates, deletions, emptied keywords, rejected data;
            # chains of all lengths, down to one line
            shape, drop = k % 5, ["d3"] if k % 2 else []
            if shape == 0:
                drop = ["d3"]
                ops.append(w.write("add", [[x, "d", d] for x in w.kws for d in w.data[:rng.choice([2, 3])] + drop]))
            elif shape == 1:
                drop = ["d3"]
                ops.append(w.write("add", [[x, "d", rng.choice(w.data)] for x in w.kws] + [[w.kws[0], "d", "d3"]]))
            else:
                ops.append(w.write("add", [[x, "d", d] for x in w.kws for d in w.data]))
                ops.append(w.write("add", [[x, "d", "d1"] for x in w.kws]))
                ops.append(w.write("del", [[x, "d", "d2"] for x in w.kws] + ([[w.kws[0], "d", "d1"], [w.kws[0], "d", "d3"]] if k % 3 == 0 else [])))
            # an entry is drawn with probability at least 1/nk by each compaction:
            # (1 - 1/nk) ** rounds * nk < 1e-10
            rounds = 1 if nk == 1 else int(math.log(1e-10 / nk) / math.log(1 - 1 / nk)) + 1
            for j in range(rounds):
                old, new = 1 + j % 2, 1 + (j + 1) % 2
                ops += [w.compact(old, new, rate, drop, arg="probe"), w.probe(old), w.probe(new)]
            ops += [snap("min"), w.search(w.allkws(), 1), w.search(w.allkws(), 2)]
            eps.append(w.episode(ops, mem=bool(k % 2), meta={"gone": drop}))
        # at rate one, once
        for k, rng in rngs(c, "one%d" % hook, 100 if c.thorough else 30):
            w = comp_world(rng, k, ncreds=2)
            ops = [random_op(w, rng, 1, kinds=["add", "add", "del"], nmax=20, ptr=.3) for _ in range(rng.randrange(1, 5))]
            ops += [snap("all", True), w.compact(1, 2, rng.choice([1.0, 1.0, 1.5, 100.0])), snap("min"), w.search(w.allkws(), 2)]
            eps.append(w.episode(ops, mem=bool(k % 2)))
        tr = c.suite("repeated%s" % ("-b3" if hook else ""), eps, "TraceSeq", tags={"min.et", "min.ct", "gone", "compact", "spurious", "search.fed", "search.miss"} | DEAD, hook=hook)
        c.need(sum(e["t"] == "inv" and e["op"] == "compact" for t in tr for e in t["ev"]) > 1000, "few compactions")
        eps = [mass_drawn(rng, [6000, 900, 257, 70][k % 4], rng.choice([.3, .5, .9]), mem=bool(k % 2)) for k, rng in rngs(c, "mass%d" % hook, 16 if c.thorough else 4)]
        if c.thorough:
            eps.append(mass_deep(c.rng, 66500, mem=hook))
        c.suite("large%s" % ("-b3" if hook else ""), eps, "TraceMass", tags={"min.et", "min.ct", "search.out", "spurious"} | DEAD, hook=hook)


# ------------------------------------------------------------------ P20 ----
def p20(c):
    c.builds(False, True)
    c.mc("MC", "MCDuring", what="searches while a compaction runs")
    c.mc("MC", "MCDuringElse", what="writes while a compaction runs, out of the window")
    c.mc("MC", "MCDuringElseB1", what="... batches of 1")
    c.mc("MC", "MCDuringNew", what="writes under the new credentials while a compaction runs")
    c.mc("MC", "MCDuringNewB1", what="... batches of 1")
    c.mc("MC", "MCDuringWrite", expect="NoLostUpdate", what="writes in the window are lost (known finding)")
    tags = {"lost", "lost.window", "invent", "conc.fail"} | DEAD
    bs = c.export("MCExport", "XDuring")
    bs = bs if c.thorough else sample(c.rng, bs, 500)
    bs += c.export("MCExport", "XDuringWrite") + c.export("MCExport", "XDuringNew")
    eps = comp_behaviours(c, bs, "b")
    tr = c.suite("behaviours", eps, "TraceComp", tags=tags)
    n = 1500 if c.thorough else 220
    for hook in (False, True):
        eps = []
        for k, rng in rngs(c, "r%d" % hook, n):
            w = comp_world(rng, k, ncreds=2)
            init = [random_op(w, rng, 1, kinds=["add", "add", "del"], nmax=10, ptr=.2) for _ in range(rng.choice([1, 2, 3]))]
            o = w.compact(1, 2, rng.choice([.2, .7, 1.0, 1.0]), rng.sample(w.data, 1) if rng.random() < .2 else [])
            cl = {"x": [o], "y": [random_op(w, rng, rng.choice([1, 1, 2]), kinds=["add", "add", "del"], nmax=2) for _ in range(rng.choice([1, 2]))],
                  "z": [w.search(w.allkws(), rng.choice([1, 2])) for _ in range(3)]}
            if k % 3 == 0:
                # new keywords only: never in the window
                cl["y"] = [w.write("add", [["new%d" % j, "d", rng.choice(w.data)]], rng.choice([1, 1, 2])) for j in range(3)]
                w.kws = w.kws + ["new0", "new1", "new2"]
            eps.append(w.episode(init, clients=cl, sched=random_sched(rng, ["x", "x", "y", "z"], 50), fin=finals(w), meta=comp_meta(w), detail=1, mem=bool(k % 2), shared=k % 5 < 2, cb=k % 7 < 3))
        tr += c.suite("random%s" % ("-b3" if hook else ""), eps, "TraceComp", tags=tags, hook=hook)

    def during(t):
        busy = n = 0
        for e in t["ev"]:
            if e["t"] in ("inv", "res") and e["c"] == "x":
                busy = e["t"] == "inv"
            n += bool(busy and e["t"] == "res" and e["c"] != "x")
        return n
    c.need(sum(map(during, tr)) > 500, "nothing during compactions")


CHECKS = {k.upper(): f for k, f in list(globals().items()) if k[0] == "p" and k[1:].isdigit()}
