"""Writes the golden indexes with a harness built against the first commit:
   gen.py FXV   (FXV: the harness binary built against that version)"""
import json, os, random, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from gen import *
HERE = os.path.dirname(os.path.abspath(__file__))
for g, (nc, keys, compacts) in {"g1": (2, {1: 1, 2: 1}, False), "g2": (3, {1: 2, 2: 2, 3: 3}, True)}.items():
    rng = random.Random("golden-" + g)
    lens = [1, 5, 13, 14, 15, 16, 17, 29, 30, 31, 32, 77, 78, 79, 80, 81, 82, 160, 253, 254, 255, 256, 257, 1000, 5000]
    w = World(rng, kws=["k%d" % j for j in range(12)], data=["d%d" % j for j in range(25)], ncreds=nc, keys=keys,
              lens=lens if compacts else lens + [0], twin=True)
    if compacts:
        w.bytes = {k: b or b"x" + k.encode() for k, b in w.bytes.items()}
    m = {}

    def do(o):
        if o["op"] == "compact":
            for (c, k), vs in list(m.items()):
                if c == tuple(o["cred"]):
                    m[(tuple(o["new"]), k)] = m.pop((c, k))
        else:
            for k, t, v in o["as"]:
                s = m.setdefault((tuple(o["cred"]), k), set())
                (s.add if o["op"] == "add" else s.discard)((t, v))
        return o
    ops = []
    for j in range(10):
        ops.append(do(random_op(w, rng, 1 if compacts else 1 + j % 2, kinds=["add", "add", "del"], nmax=20, ptr=.2)))
    if compacts:
        ops.append(do(w.compact(1, 2, 1.0)))
        ops += [do(random_op(w, rng, 2, kinds=["add", "add", "del"], nmax=8, ptr=.2)) for _ in range(4)]
        ops.append(do(w.compact(2, 3, 0.3)))
        ops += [do(random_op(w, rng, 3, kinds=["add", "add", "del"], nmax=8, ptr=.2)) for _ in range(4)]
    out = os.path.join(HERE, g + ".json")
    ep = w.episode(ops + [{"op": "save", "arg": out}])
    ep["id"] = g
    open("/tmp/g.ep", "w").write(json.dumps(ep) + "\n")
    subprocess.run([sys.argv[1], "run", "/tmp/g.ep", "/tmp/g.tr"], check=True)
    tr = json.loads(open("/tmp/g.tr").readline())
    st = [e["st"] for e in tr["ev"] if e["t"] == "res"]
    assert set(st) == {"ok"}, st
    json.dump({"bytes": w.hexbytes(), "creds": w.creds, "kws": w.kws, "data": w.data, "ren": w.ren,
               "m0": [["/".join(c), k, sorted(map(list, vs))] for (c, k), vs in sorted(m.items())]},
              open(os.path.join(HERE, g + ".meta.json"), "w"))
    print(g, len(m), len(ops), os.path.getsize(out))
