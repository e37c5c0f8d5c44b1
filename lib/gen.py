"""Turns abstract histories and behaviours into episodes for the harness."""
import json
import math
import random

KWS = ["a", "b", "c", "e"]
DATA = ["1", "2", "3", "4"]
LENS = [0, 1, 7, 14, 15, 16, 17, 30, 31, 32, 47, 63, 64, 79, 80, 81, 95, 160, 255, 256, 1000]


def rbytes(rng, n, cls):
    if cls == 0:
        return bytes(n)
    if cls == 1:
        return b"\xff" * n
    if cls == 2:
        return b"l" * n
    if cls == 3:
        return (b"w\xff" * n)[:n]
    if cls == 4:
        return bytes((i * 31 + n) & 255 for i in range(n))
    return bytes(rng.randrange(256) for _ in range(n))


# texts that some normalization would mix up
TEXTS = [["Robert", "robert", "ROBERT", " robert", "robert ", "robert\n", "rob ert", "rob  ert", "rob\tert", "\ufeffrobert", "robert\0", "rober", "roberts"],
         ["Élan", "élan", "ÉLAN", "E\u0301lan", "e\u0301lan", "Elan", "elan", "élan ", "Élans"],
         ["straße", "STRASSE", "strasse", "STRAẞE", "ﬁn", "fin", "FIN", "İ", "i", "I", "ı", "Σ", "σ", "ς", "日本", "日 本", "日本\u3000"],
         ["1", "01", "1.0", "+1", "１", "1 ", "-1", "0", "00", "", " ", "  ", "\n", "\0", "\0\0"],
         ["a/b", "a//b", "a%2Fb", "a%2fb", "a\\b", "a/b/", "./a/b", "a+b", "a b", "{}", "{0}", "%s", "null", "None", "'", "''", '"']]


def near(rng, b):
    """Close to another one: extended, truncated, one bit away, other blanks or case."""
    b = bytearray(b)
    q = rng.randrange(9)
    if q == 0:
        return bytes(b) + b"\0"
    if q == 1:
        return bytes(b[:-1])
    if q == 2 and b:
        b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        return bytes(b)
    if q == 3:
        return bytes(b) + rng.choice([b" ", b"\n", b"\t", b"\r\n"])
    if q == 4:
        return rng.choice([b" ", b"\t", b"\0"]) + bytes(b)
    if q == 5:
        t = b.decode("utf-8", "replace").encode()
        return t.decode().swapcase().encode() if t == bytes(b) else bytes(b).swapcase()
    if q == 6 and len(b) < 500:
        return bytes(b) * 2
    if q == 7:
        return bytes(b[::-1])
    return (b"l" if rng.random() < .5 else b"w") + bytes(b)


def concretize(rng, ids, lens=LENS, same=0.0, kws=KWS, texts=False):
    """id -> distinct byte strings of adversarial contents and lengths."""
    texts = rng.choice(TEXTS) if texts or min(lens) < 4 and rng.random() < .4 else None
    out, used = {}, set()
    for x in ids:
        while True:
            r = rng.random()
            if out and r < 0.3:
                b = near(rng, rng.choice(list(out.values())))
            elif texts and r < 0.8:
                b = rng.choice(texts).encode()
            else:
                b = rbytes(rng, rng.choice(lens), rng.randrange(9))
            if len(b) <= max(lens) + 40 and b not in used:
                break
        used.add(b)
        out[x] = b
    return out


class World:
    """Bytes and credentials of an episode."""

    def __init__(self, rng, kws=KWS, data=DATA, ncreds=1, lens=LENS, samekey=False, twin=True, keys=None, nearkeys=True):
        self.rng, self.kws, self.data = rng, kws, data
        self.ren = {x: x for x in kws + data}
        # a datum with the very bytes of a keyword
        if twin and rng.random() < .5:
            self.ren[data[-1]] = kws[0]
        ids = sorted(set(self.ren.values()))
        self.bytes = concretize(rng, ids, lens)
        self.creds = {}
        key0 = bytes(rng.randrange(256) for _ in range(16))
        style = rng.randrange(6) if nearkeys and ncreds > 1 else 9
        for c in range(1, ncreds + 1):
            n = keys[c] if keys else 1 if samekey else c
            key = "K%d" % n
            if style < 2:
                # keys that only differ by one of their last bits, or of their first ones
                b = bytearray(key0)
                b[[15, 0][style]] ^= n
                key = "hex:" + b.hex()
            lab = "L%d" % c
            self.creds[c] = [key, lab]
        if not samekey and not keys and ncreds > 1 and rng.random() < .3:
            # same label, only the key changes
            for c in self.creds:
                self.creds[c][1] = "L1"
        # labels: short ones, long ones, long ones that only differ at their end or at their start
        stem = rbytes(rng, rng.choice([0, 1, 31, 32, 33, 64, 135, 136, 300, 700, 5000, 70000]), rng.randrange(9))
        style = rng.randrange(6)
        if style >= 4:
            # labels close to each other
            self.bytes.update(concretize(rng, sorted({c[1] for c in self.creds.values()}), [0, 1, 5, 8, 32], texts=True))
        for c in self.creds.values():
            n = b"label " + c[1].encode()
            if style == 1:
                n = stem + n
            elif style == 2:
                n = n + stem
            elif style == 3:
                n += bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 40])))
            self.bytes.setdefault(c[1], n)
        # the empty label is a label
        if style < 4 and rng.random() < .15:
            self.bytes[rng.choice(list(self.creds.values()))[1]] = b""

    def cred(self, c):
        return list(self.creds[c])

    def allkws(self):
        return [self.r(k) for k in self.kws]

    def r(self, x):
        return self.ren.get(x, x)

    def assoc(self, l):
        return [[self.r(k), t, self.r(v)] for k, t, v in l]

    def meta(self, **kw):
        m = {"len": {k: len(b) for k, b in self.bytes.items()},
             "keyof": {"/".join(c): c[0] for c in self.creds.values()}}
        m.update(kw)
        return m

    def hexbytes(self):
        return {k: b.hex() for k, b in self.bytes.items()}

    def search(self, kws, cred=1, **kw):
        return dict(op="search", cred=self.cred(cred), kws=kws, **kw)

    def probe(self, cred, arg="probe"):
        return self.search(self.allkws(), cred, stop=1, arg=arg)

    def write(self, op, assoc, cred=1, **kw):
        return dict(op=op, cred=self.cred(cred), **{"as": self.assoc(assoc)}, **kw)

    def compact(self, old, new, rate=1.0, drop=(), **kw):
        return dict(op="compact", cred=self.cred(old), new=self.cred(new), rate=rate, drop=[self.r(d) for d in drop], **kw)

    def episode(self, init, **kw):
        ep = dict(bytes=self.hexbytes(), init=init, meta=self.meta(), trace=len(init) % 3 == 0)
        if "meta" in kw:
            ep["meta"].update(kw.pop("meta"))
        ep.update(kw)
        return ep


def wide_world(rng, n, ncreds=1, nd=3, keys=None):
    """Many keywords: sizes beyond what a storage would batch."""
    return World(rng, kws=["k%d" % j for j in range(n)], data=["d%d" % j for j in range(nd)], ncreds=ncreds, twin=False,
                 lens=rng.choice([[8, 11, 20], [6, 30, 31, 47]]), keys=keys)


def wide_ops(w, rng, cred=1):
    """One addition to all the keywords, then some modifications of many of them."""
    ops = [w.write("add", [[x, "d", rng.choice(w.data)] for x in w.kws], cred)]
    part = rng.sample(w.kws, len(w.kws) // rng.choice([1, 2, 3]) or 1)
    ops.append(w.write(rng.choice(["add", "del"]), [[x, "d", rng.choice(w.data)] for x in part], cred))
    return ops


def snap(tag, full=False):
    return dict(op="snap", arg=tag, n=1 if full else 0)


def op_of(w, h, rng, rates=(.2, .5, .9)):
    """Operation of the harness for one record of an abstract history."""
    if h["op"] in ("add", "del"):
        return w.write(h["op"], h["as"], h["cred"])
    if h["op"] == "search":
        return w.search([w.r(k) for k in h["kws"]], h["cred"], stop=h["stop"])
    if h["op"] == "compact":
        return w.compact(h["cred"], h["to"], 1.0 if h["rate"] == "full" else rng.choice(rates), h["drop"])
    return None


# ------------------------------------------------- behaviours of Findex.tla --
def spec_op(w, o):
    """Operation of the harness for an operation of Findex.tla."""
    if o["op"] in ("add", "del"):
        return w.write(o["op"], [[k, v[0], v[1]] for k, vs in sorted(o["as"].items()) for v in vs], o["cred"])
    if o["op"] == "search":
        return w.search([w.r(k) for k in o["kws"]], o["cred"], stop=o["stop"])
    return w.compact(o["old"], o["new"], 1.0 if o["full"] else 0.5, [v[1] for v in o["drop"] if v[0] == "d"])


def behaviour(w, b, fin, **kw):
    """Episode that replays a behaviour exported by MCExport."""
    sched = [{"c": h["c"], "d": h["d"], "k": h["k"]} for h in b["hist"]]
    return w.episode([spec_op(w, o) for o in b["init0"]],
                     clients={c: [spec_op(w, o) for o in ops] for c, ops in b["prog"].items()},
                     sched=sched, fin=fin, **kw)


def random_op(w, rng, cred=1, kinds=("add", "del", "search"), nmax=3, ptr=.25):
    k = rng.choice(kinds)
    if k == "search":
        return w.search(rng.sample(w.allkws(), rng.randrange(1, len(w.kws) + 1)), cred)
    return w.write(k, [[rng.choice(w.kws), "p", rng.choice(w.kws)] if rng.random() < ptr else
                       [rng.choice(w.kws), "d", rng.choice(w.data)] for _ in range(rng.randrange(1, nmax + 1))], cred)


def random_sched(rng, clients, n, dec=("go",)):
    """Schedule with bursts: a client may do several accesses in a row."""
    out = []
    while len(out) < n:
        c = rng.choice(clients)
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            out.append({"c": c, "d": rng.choice(dec), "k": ""})
    return out


# ------------------------------------------------------------- large indexes --
def mass(rng, big, rate=None, steps=4, drop=True, mem=False, shape=None):
    """Program over groups of keywords (TraceMass): `big` keywords, lines or values."""
    shape = rng.randrange(3) if shape is None else shape
    if shape == 0:
        groups, most = [{"n": big, "len": rng.choice([12, 14, 15])}], [2]
    elif shape == 1:
        groups, most = [{"n": 1, "len": rng.choice([12, 15, 80])}], [big]
    else:
        groups, most = [{"n": 1, "len": 80 * big - rng.choice([0, 1, 2, 17])}], [3]
    groups += [{"n": rng.choice([1, 3, 30]), "len": rng.choice([12, 31, 33, 300])}]
    most += [rng.choice([2, 9, 40])]
    st = [{"o": "add", "g": g, "lo": 0, "hi": most[g] * 3 // 4 + 1} for g in range(2)]
    for _ in range(steps):
        g = rng.choice([0, 0, 1])
        lo = rng.randrange(0, most[g])
        st.append({"o": rng.choice(["add", "del", "del"]), "g": g, "lo": lo, "hi": lo + rng.randrange(1, most[g] - lo + 1)})
    st.append({"o": "search"})
    if rate:
        if rate < 1:
            st += [{"o": "compact", "rate": rate}, {"o": "search"}, {"o": "search", "lo": 1}]
        lo = rng.randrange(0, most[0])
        d = {"lo": lo, "hi": lo + rng.randrange(0, most[0])} if drop else {}
        st += [dict(o="compact", rate=1.0, **d), {"o": "search"}, {"o": "search", "lo": 1},
               {"o": "add", "g": 1, "lo": 0, "hi": 5}, {"o": "search"}]
    return {"init": [{"op": "mass", "arg": json.dumps({"groups": groups, "steps": st, "mem": mem})}]}


def mass_drawn(rng, n, rate, mem=False):
    """Partial compactions that reject everything, repeated until the probability that
    an entry was never drawn is negligible (at least one chance in two each time)."""
    groups = [{"n": n, "len": rng.choice([12, 15])}, {"n": 3, "len": 40}]
    st = [{"o": "add", "g": g, "lo": 0, "hi": rng.choice([1, 3])} for g in range(2)]
    st += [{"o": "compact", "rate": rate, "lo": 0, "hi": 99, "times": 59}, {"o": "compact", "rate": rate, "lo": 0, "hi": 99, "drawn": True}, {"o": "search"},
           {"o": "add", "g": 0, "lo": 0, "hi": 2}, {"o": "search"}]
    return {"init": [{"op": "mass", "arg": json.dumps({"groups": groups, "steps": st, "mem": mem})}]}


def mass_deep(rng, n, mem=False):
    """More keywords than 16 bits can count, whose chains get shorter once compacted: partial
    compactions with about one draw per entry, repeated until the probability that one of the
    entries was never drawn is below 1e-8."""
    rate = .9 / (math.log2(n) + .5772)
    rounds = int(math.log(n * 1e8) / .9) + 1
    st = [{"o": "add", "g": 0, "lo": 0, "hi": 6}, {"o": "del", "g": 0, "lo": 0, "hi": rng.randrange(2, 6)},
          {"o": "compact", "rate": rate, "times": rounds}, {"o": "compact", "rate": rate, "drawn": True}, {"o": "search"}]
    return {"init": [{"op": "mass", "arg": json.dumps({"groups": [{"n": n, "len": rng.choice([12, 15])}], "steps": st, "mem": mem})}]}
