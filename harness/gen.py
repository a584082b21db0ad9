"""Scenarios for the driver, by suite.  Every random choice comes from the seed
given; values are biased towards boundaries."""
import json
import random
import re
import unicodedata

import yaml

import xmlio

PLAIN = ["a", "b", "c", "cp", "cp1", "cp10", "bin_a", "x", "y", "z"]
ODD = ["A", "a b", "x.y", "top/i", "i[0]", "b<1>", "<&>\"'", "]]>", "é", "日本語", "𝒳", "%d", "%s%%", "1", "01",
       "1.0", "1e3", "true", "null", "no", "~", "a : 5%", "x : 1", "- x", "#h", "{k}", "[l]", "*s", "&amp;", "a:b",
       "default", "bins", "ignore", "illegal", "type", "name", "0x10", "2020-01-02", "<=", "=", "a'b", "a\\nb",
       "$unit", "a,b", "a;b", "a|b", "x=1", "a  b", "a+b", "(a)", "L" * 120, "cp_", "_cp", "e\u0301", "ﬁ", "ß", "SS", "Bins:", "INST a", "TYPE a : 3%",
       "M" * 300, "L" * 119 + "K", "du", "cg_inst", "<unknown>", "xxx", "None", "0", "-1", "UCIS:x", "aA", "a1", "1a", "inst", "a_b_c"]
WS = [" a", "a ", "  ", "", "a  b"]
CTRL = ["a\tb", "a\nb", "\n", "a\r\nb"]
COUNTS = [0, 0, 1, 1, 2, 3, 5, 9, 10, 11, 99, 100, 127, 255, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32,
          2 ** 53 - 1, 2 ** 53, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1]
HUGE = [2 ** 64, 2 ** 64 + 1, 10 ** 23 - 1, 2 ** 200 + 1]
WEIGHTS = [0, 1, 1, 1, 2, 3, 5, 7, 10, 100, 2 ** 31, 2 ** 33]
SEPS = ["  ", " ", ",", ";", ".", "/", "[", "]", "<", ">", "&", "'", '"', "%", "|", "=", ":", "#", "\\", "(", "é", "-", "_",
        ", ", " : ", "::", "}", "{", "@", "!", "*", "?", "\u00a0", "+", "~", "^", "`", "$"]
WSEND = ["a ", "b ", "", "a  b", "é "]
ALS = [0, 1, 1, 1, 2, 3, 5, 10, 100, 2 ** 32, 2 ** 53, 2 ** 53 + 1]
DUS = ["DU", "DU2", "DU3", "DU4", "DU5"]


class G:
    def __init__(self, seed, names="odd", ws=True, ctrl=False, huge=True, huge_w=True):
        self.r = random.Random(seed)
        self.names, self.ws, self.ctrl, self.huge, self.huge_w = names, ws, ctrl, huge, huge_w
        self.files = self.r.sample(FILES, 5)
        self.wide = self.r.random() < .13

    def name(self, used=(), n=4):
        """a name; from a few only, so that names meet"""
        r = self.r
        for _ in range(100):
            k = r.random()
            if used and self.names != "plain" and r.random() < .07:
                x = self.near(r.choice(list(used)))
            elif k < .7 or self.names == "plain":
                x = r.choice(PLAIN[:n])
            elif k < .82:
                x = r.choice("abcx") + r.choice(SEPS) + r.choice("abc1")
            elif k < .93 or not self.ws:
                x = r.choice(ODD)
            elif self.ws == "end":
                x = r.choice(WSEND)
            elif k < .98 or not self.ctrl:
                x = r.choice(WS)
            else:
                x = r.choice(CTRL)
            if x not in used:
                return x
        i = 0
        while "n%d" % i in used:
            i += 1
        return "n%d" % i

    def near(self, x):
        """a name that is almost another one"""
        x = self.r.choice([x.upper(), x.lower(), x.swapcase(), x + "0", x[:-1], x[1:], x + "_", "_" + x, x + x, "0" + x,
                           x + "'", x.replace("a", "\u00e4"), unicodedata.normalize("NFD", x), unicodedata.normalize("NFC", x),
                           unicodedata.normalize("NFKC", x), x.casefold(), x + " " if self.ws else x, x.replace(" ", "_"),
                           x.replace("_", " "), x + "\u200b", x + "." + x, x + "[0]", x + "#1", x + "_1"])
        return x if len(x) < 400 and (x.strip() == x and x or self.ws is True or self.ws == "end" and x.lstrip() == x) else "nn"

    def count(self, al=None):
        """a number of hits; often about as many as are needed"""
        r = self.r
        k = r.random()
        if al and r.random() < .25:
            return max(0, al + r.choice([-1, -1, 0, 0, 1]))
        if k < .5:
            return r.choice([0, 0, 1, 2, 3])
        if k < .8:
            return r.choice(COUNTS)
        if k < .9 and self.huge:
            return r.choice(HUGE)
        return r.randrange(10 ** r.randrange(1, 12))

    def weight(self):
        return self.r.choice(WEIGHTS if self.huge_w else WEIGHTS[:10])

    def al(self):
        return self.r.choice(ALS)

    def kind(self):
        return self.r.choice(["bin", "bin", "bin", "ign", "ill"])

    def some(self, *weights):
        """a number, with the weights given for 0, 1, 2..."""
        return self.r.choices(range(len(weights)), weights)[0]

    def many(self, *weights):
        """the same, of things: many of them now and then, but once only"""
        if self.wide and self.r.random() < .25:
            self.wide = False
            return self.r.choice([9, 10, 11, 11, 12, 16, 17, 20])
        return self.some(*weights)


# ------------------------------------------------- trees: covergroups as values

class Types:
    """What instances of a covergroup type have in common (uniform data)."""

    def __init__(self, g, nt=None):
        self.g, self.m = g, {}
        self.pool = []
        for _ in range(nt or g.r.randint(1, 3)):
            self.pool.append(g.name(self.pool))

    def get(self, n):
        g = self.g
        if n not in self.m:
            cps, crs = {}, {}
            for _ in range(g.many(0, 4, 4, 2, 1)):
                x = g.name(cps)
                cps[x] = dict(w=g.weight(), al=g.al(), pool=binpool(g))
            for _ in range(g.many(5, 4, 2)):
                x = g.name(crs)
                pts = [g.r.choice(list(cps)) for _ in range(g.r.randint(1, 4) if g.r.random() < .9 else g.r.randint(5, 12))] \
                    if g.r.random() < .3 else \
                    g.r.sample(list(cps), g.r.randint(1, len(cps)))
                crs[x] = dict(w=g.weight(), al=g.al(), pts=pts, pool=binpool(g))
            self.m[n] = dict(w=g.weight(), cps=cps, crs=crs)
        return self.m[n]


def binpool(g):
    n = g.some(0, 3, 4, 3, 1)
    if g.r.random() < .04:
        n = g.r.choice([11, 22, 64, 65, 70])
        return ["bin[%d]" % i for i in range(n)]
    p = []
    for _ in range(n + 1):
        p.append(g.name(p, n=3))
    return p


def bins_of(g, pool, al, lo=1, wild=False):
    """bins, unique by name and kind, in any order"""
    r = g.r
    out, seen = [], set()
    n = len(pool) if len(pool) > 60 else r.randint(lo, len(pool) + 1)
    while len(out) < n:
        x, k = r.choice(pool) if len(pool) < 60 else pool[len(out)], g.kind()
        if (x, k) in seen:
            if len(pool) < 60 and len(seen) >= 3 * len(pool):
                break
            if len(pool) >= 60:
                break
            if r.random() < .3:
                n -= 1
            continue
        seen.add((x, k))
        a = g.al() if wild else al
        out.append(dict(n=x, k=k, c=g.count(a), al=a))
    if lo and not out:
        out.append(dict(n=pool[0], k="bin", c=g.count(), al=al))
    return out


def uniform_ci(g, ty, name=None, full=True):
    """a covergroup instance of a type: some of its coverpoints and crosses"""
    r = g.r
    cps = [x for x in ty["cps"] if r.random() < .75]
    if full and not cps:
        cps = [r.choice(list(ty["cps"]))]
    if r.random() < .3:
        r.shuffle(cps)
    crs = [x for x in ty["crs"] if r.random() < .8]
    pts = {}
    for x in crs:                       # what a cross refers to has to be there
        pts[x] = list(ty["crs"][x]["pts"])
        if r.random() < .12:            # not the same as in other instances
            pts[x] = [r.choice(list(ty["cps"])) for _ in range(r.randint(1, 3))]
        for p in pts[x]:
            if p not in cps:
                cps.insert(r.randint(0, len(cps)), p)
    if r.random() < .3:
        r.shuffle(crs)
    return dict(
        n=name, w=g.weight() if r.random() < .5 else 1,
        cps=[dict(n=x, w=ty["cps"][x]["w"], al=ty["cps"][x]["al"],
                  bins=bins_of(g, ty["cps"][x]["pool"], ty["cps"][x]["al"], 1 if full else 0)) for x in cps],
        crs=[dict(n=x, w=ty["crs"][x]["w"], al=ty["crs"][x]["al"], pts=pts[x],
                  bins=bins_of(g, ty["crs"][x]["pool"], ty["crs"][x]["al"],
                               0 if ty["crs"][x]["al"] == 1 else 1)) for x in crs])


def uniform_inst(g, types, used, empty=True):
    r = g.r
    cgs, seen = [], []
    for _ in range(g.many(1 if empty else 0, 4, 3, 1)):
        tn = r.choice(types.pool)
        if tn in seen:
            continue
        seen.append(tn)
        ty = types.get(tn)
        cis, un = [], []
        for _ in range(g.many(2, 4, 3, 2)):
            n = g.name(un)
            un.append(n)
            cis.append(uniform_ci(g, ty, n))
        own = uniform_ci(g, ty)
        if cis and r.random() < .7:     # type data that is the union of the instances, or none
            own = union(cis) if r.random() < .7 else dict(cps=[], crs=[])
        cgs.append(dict(n=tn, w=ty["w"], own=own, cis=cis))
    n = g.name(used)
    used.append(n)
    return dict(n=n, du=g.name(), cgs=cgs)


def union(cis):
    def items(key):
        out = {}
        for ci in cis:
            for it in ci[key]:
                o = out.setdefault(it["n"], dict(it, bins=[]))
                for b in it["bins"]:
                    f = [x for x in o["bins"] if (x["n"], x["k"]) == (b["n"], b["k"])]
                    if f:
                        f[0]["c"] += b["c"]
                    else:
                        o["bins"].append(dict(b))
        return list(out.values())
    return dict(cps=items("cps"), crs=items("crs"))


def uniform_db(g, types, lo=1, empty=True):
    used = []
    return [uniform_inst(g, types, used, empty) for _ in range(max(lo, g.many(1, 2, 1, 1)) if lo else g.many(2, 2, 1, 1))]


def wild_db(g, dup=.1, lo=0):
    """anything that can be created: names repeated with the probability given"""
    r = g.r

    def used(l):
        return () if r.random() < dup else [x["n"] for x in l]

    def items():
        cps, crs = [], []
        for _ in range(g.many(1, 4, 4, 2)):
            cps.append(dict(n=g.name(used(cps), 3), w=g.weight(),
                            bins=bins_of(g, binpool(g), 1, 0, r.random() < .5)))
        if cps:
            for _ in range(g.many(4, 4, 2)):
                crs.append(dict(n=g.name(used(crs), 3), w=g.weight(),
                                pts=[r.choice(cps)["n"] for _ in range(r.randint(1, 3))],
                                bins=bins_of(g, binpool(g), 1, 0, r.random() < .5)))
        return cps, crs

    insts = []
    for _ in range(max(lo, g.many(1, 2, 2, 1))):
        cgs = []
        for _ in range(g.many(1, 4, 3, 1)):
            cps, crs = items()
            cis = []
            for _ in range(g.many(3, 3, 3, 1)):
                c2, r2 = items()
                cis.append(dict(n=g.name(used(cis), 3), w=g.weight(), cps=c2, crs=r2))
            cgs.append(dict(n=g.name(used(cgs), 3), w=g.weight(), own=dict(cps=cps, crs=crs), cis=cis))
        insts.append(dict(n=g.name(used(insts), 3), du=g.name(), cgs=cgs))
    return insts


def variant(g, insts):
    """much the same database, as another run of the tests leaves it"""
    r = g.r
    p = r.choice([0, 0, .1, .3])

    def bins(l):
        l = [dict(b, c=g.count(b.get("al"))) for b in l if r.random() >= p] or [dict(b) for b in l[:1]]
        if r.random() < p:
            r.shuffle(l)
        return l

    def items(o):
        used = {x for c in o["crs"] for x in c["pts"]}
        return dict(o, cps=[dict(c, bins=bins(c["bins"])) for c in o["cps"] if c["n"] in used or r.random() >= p],
                    crs=[dict(c, bins=bins(c["bins"])) for c in o["crs"] if r.random() >= p])

    def cgs(l):
        return [dict(c, own=items(c["own"]), cis=[items(x) for x in c["cis"] if r.random() >= p]) for c in l]
    return [dict(i, cgs=cgs(i["cgs"])) for i in insts if r.random() >= p]


def variant_doc(g, doc):
    """the same for a document"""
    v = [dict(i, cgs=[dict(c, own=dict(cps=[], crs=[])) for c in i["cgs"]]) for i in doc]
    out = []
    for i in variant(g, v) or v:
        cs = [dict(c, cis=[x for x in c["cis"] if x["cps"]]) for c in i["cgs"]]
        for c in cs:
            c.pop("own")
        out.append(dict(i, cgs=[c for c in cs if c["cis"]]))
    return out


FILES = ["a.sv", "b.sv", "/x/y z.sv", "é.sv", "A.sv", "a.SV", "./a.sv", "x/a.sv", "x\\a.sv", "x//a.sv", "a.sv ", "a",
         "<&>.sv", "É.sv", "e\u0301.sv", ""]


def linear(g, insts, shuffle=True):
    """creation steps of a database, each after what it needs, in a random order"""
    r = g.r
    out = []
    count = {}

    def slot(path):
        count[path] = count.get(path, 0) + 1
        return path + (count[path],)

    def src():
        return [r.choice(g.files), r.choice([0, 1, 7, 123456]), r.randint(0, 3)] if r.random() < .3 else None

    def how():
        return r.choice(["oo", "oo", "c", "scope"])
    ready = []                          # tasks: functions that return more tasks

    def inst(i):
        def go():
            du = slot(())
            out.append(dict(op="mk", path=[], t=r.choice(DUS) if shuffle else "DU", n=i["du"], w=g.weight() if shuffle else 1,
                            how=r.choice(["oo", "c"]), src=src()))

            def go2():
                p = slot(())
                out.append(dict(op="mk", path=[], t="INST", n=i["n"], w=g.weight() if shuffle else 1,
                                how=r.choice(["oo", "c"]), src=src(), du=list(du)))
                return [cg(p, c) for c in i["cgs"]]
            return [go2]
        return go

    def cg(par, c):
        def go():
            p = slot(par)
            out.append(dict(op="mk", path=list(par), t="CG", n=c["n"], w=c["w"], how=how(), src=src()))
            ts = group(p, c["own"])
            return ts + [ci(p, x) for x in c["cis"]]
        return go

    def ci(par, x):
        def go():
            p = slot(par)
            out.append(dict(op="mk", path=list(par), t="CI", n=x["n"], w=x["w"], how=how(), src=src()))
            return group(p, x)
        return go

    def group(p, x):
        left = [len(x["cps"])]
        names = []

        def crs():
            return [[cr(p, c, names) for c in x["crs"]]] if x["crs"] else []

        def cp(c):
            def go():
                q = slot(p)
                names.append(c["n"])
                out.append(dict(op="mk", path=list(p), t="CP", n=c["n"], w=c["w"], how=how(), src=src()))
                left[0] -= 1
                ts = [[bin(q, b) for b in c["bins"]]] if c["bins"] else []
                if left[0] == 0:
                    ts += crs()
                return ts
            return go
        cs = [cp(c) for c in x["cps"]]
        return [cs] if cs else []

    def cr(p, c, names):
        def go():
            q = slot(p)
            out.append(dict(op="mk", path=list(p), t="CR", n=c["n"], w=c["w"], src=src(),
                            pts=[r.choice([j + 1 for j, n in enumerate(names) if n == x]) for x in c["pts"]]))
            return [[bin(q, b) for b in c["bins"]]] if c["bins"] else []
        return go

    def bin(q, b):
        def go():
            hw = r.choice(["bin", "bin", "c", "next"])
            out.append(dict(op="bin", path=list(q), n=b["n"], k=b["k"], c=b["c"], al=b["al"], how=hw,
                            dflt=r.random() < .5, src=src() if r.random() < .5 else None))
            if hw != "bin":
                out[-1].update(goal=r.choice([0, 1, 5, 100]), bw=r.choice([0, 1, 2]))
            return []
        return go
    # a task is a function, or a list of functions to be run in order
    ready = [[inst(i) for i in insts]] if insts else []
    while ready:
        j = r.randrange(len(ready)) if shuffle else 0
        t = ready[j]
        if isinstance(t, list):
            f = t.pop(0)
            if not t:
                ready.pop(j)
            new = f()
        else:
            ready.pop(j)
            new = t()
        if shuffle:
            ready += new
        else:
            ready = new + ready
    return out


def build(g, h, insts, **kw):
    return dict(op="build", h=h, steps=linear(g, insts, **kw))


# -------------------------------------------------------------- smaller pieces

DATES = ["20200102030405", "20231231235959", "19700101000000", "20240229120000", "20991231000000",
         "20200329023000", "20200308023000", "20201025023000", "20380119031408"]
TEXTS = ["x", "", "a b", "<&>\"'", "é日本", "0", "none", "-5", "a\tb", "L" * 200]


def hist_ops(g, h, n, xml=False):
    """creation of history nodes, and their test data"""
    r = g.r
    ops = []
    for i in range(n):
        ops.append(dict(op="hist", h=h, par=r.choice([0, 0, r.randint(1, i)]) if i else 0,
                        log=r.choice(TEXTS + ["l%d" % i] * 4), phys=r.choice([None, "p.ucis"] + TEXTS),
                        kind=r.choice([None, 1, 1, 2, 2] + ([] if xml else [-1])),
                        how=r.choice(["c", "oo", "dflt"])))
        if xml or r.random() < .7:
            ops.append(hset_data(g, h, i + 1))
        for _ in range(g.some(3, 3, 2)):
            ops.append(hset(g, h, i + 1))
    return ops


def hnum(g, int_only=False):
    r = g.r
    return r.choice([0, 1, 2, 10, 2 ** 31, 123456789] if int_only else [0, 1, 2.5, 10, 2 ** 31, 0.125, 1000000.5])


def hval(g, k):
    r = g.r
    t = dict((kk, tt) for _, kk, tt in xmlio.HATTR).get(k)
    if k == "date":
        return r.choice(DATES)
    if t == "num":
        return hnum(g, k == "sametests")
    if k == "toolcategory":
        return r.choice(["UCIS:simulator", "x", "é"])
    return r.choice(TEXTS)


def hset_data(g, h, node):
    r = g.r
    vals = [["status", r.choice([1, 1, 2, 3, 4, 5, 6])], ["toolcategory", hval(g, "toolcategory")],
            ["date", hval(g, "date")]]
    for k in ("simtime", "timeunit", "runcwd", "cputime", "seed", "cmd", "args", "compulsory", "user", "cost"):
        if r.random() < .6:
            vals.append([k, hval(g, k)])
    return dict(op="hset", h=h, node=node, vals=vals, how=r.choice(["data", "cdata"]))


HKEYS = ["status", "simtime", "timeunit", "runcwd", "cputime", "seed", "cmd", "args", "compulsory", "date", "user",
         "cost", "toolcategory", "vendorid", "vendortool", "vendortoolversion", "sametests", "comment"]


def hset(g, h, node, n=3):
    r = g.r
    if r.random() < .15:
        return dict(op="hset", h=h, node=node, how="prop", vals=[["status", r.choice([0, 1])]])
    ks = r.sample(HKEYS, r.randint(1, n))
    return dict(op="hset", h=h, node=node, how="set",
                vals=[[k, r.choice([1, 2, 3, 4, 5, 6]) if k == "status" else hval(g, k)] for k in ks])


def hit(g, h, amt=None):
    r = g.r
    if amt is None:
        amt = r.choice([0, 1, 1, 1, 2, 3, 10, 2 ** 31, 2 ** 32 + 1, 2 ** 63, 2 ** 64] + [r.randrange(1000)])
    return dict(op="hit", h=h, pick=r.random(), amt=amt, held=r.random() < .5, dflt=r.random() < .7)


PROPS = ["weight", "goal", "atleast", "autobin", "overlap", "strobe", "perinst", "mergeinst", "comment"]


def setp(g, h, where=("CG", "CI", "CP", "CR", "INST", "DU"), ks=PROPS):
    r = g.r
    k = r.choice(ks)
    v = r.choice(TEXTS) if k == "comment" else r.choice([0, 1]) if k in ("overlap", "perinst", "mergeinst") else \
        r.choice([0, 1, 2, 3, 64, 100, 2 ** 31, 2 ** 33] + [-1, -5] * (k == "goal"))
    return {"op": "set", "h": h, "pick": r.random(), "in": list(where), "k": k, "v": v,
            "how": r.choice(["c", "oo"])}


QUIET = ["goal", "goal", "autobin", "overlap", "strobe", "perinst", "mergeinst", "comment"]


def quiet(g, h, ks=QUIET):
    """attributes set that nothing else depends on"""
    return [setp(g, h, ("CG", "CI", "CP", "CR"), ks) for _ in range(g.r.randint(1, 4))] if g.r.random() < .25 else []


def mkp(g, h):
    """a scope or bin created somewhere in the state reached"""
    r = g.r
    k = r.random()
    src = [r.choice(g.files), r.randint(0, 9), 0] if r.random() < .3 else None
    if k < .3:
        return {"op": "bin", "h": h, "pick": r.random(), "in": ["CP", "CR"], "n": g.name(), "k": g.kind(),
                "c": g.count(), "al": g.al(), "how": r.choice(["bin", "c", "next"]), "dflt": r.random() < .5,
                "src": src, "goal": r.choice([0, 1, 5, 100]), "bw": r.choice([0, 1, 2])}
    t, par = r.choice([("CG", ["INST"]), ("CI", ["CG"]), ("CP", ["CG", "CI"]), ("CP", ["CG", "CI"]),
                       ("CR", ["CG", "CI"]), ("DU", ["ROOT"])])
    op = {"op": "mk", "h": h, "pick": r.random(), "in": par, "t": t, "n": g.name(), "w": g.weight(),
          "how": r.choice(["oo", "c", "scope"]), "src": src}
    if t == "CR":
        op["pts"] = [r.randint(1, 2) for _ in range(r.randint(1, 3))]
    return op


# ------------------------------------------------------------------- suites

def s_merge(g):
    """merges in every order and grouping"""
    r = g.r
    alike = r.choice([0, 0, .95])
    n = r.choice([1, 2, 2, 3, 3, 3, 4, 5]) if r.random() < .93 else r.choice([10, 12])
    if alike and r.random() < .5:
        n = r.choice([5, 6, 7, 8, 9])
    uniform = r.random() < .4
    dup = r.choice([0, 0, .15, .4])
    types = Types(g)
    ops, protos = [], []
    for h in range(1, n + 1):
        ops.append(dict(op="new", how=r.choice(["mem", "mem", "xml", "yaml"])))
        if r.random() < .06:
            continue
        if protos and r.random() < alike:
            db = variant(g, protos[0])
        elif protos and r.random() < .15:
            db = r.choice(protos)
        elif n > 5:
            db = (uniform_db(g, types) if uniform else wild_db(g, dup, 1))[:1]
        else:
            db = uniform_db(g, types, 0) if uniform else wild_db(g, dup)
        protos.append(db)
        ops.append(build(g, h, db))
        ops += quiet(g, h, QUIET + ["atleast"])
    last = n

    def merge(srcs, like=0):
        nonlocal last
        last += 1
        ops.append(dict(op="merge", srcs=list(srcs), like=like, to=r.choice(["mem", "mem", "xml", "yaml"]),
                        how=r.choice(["new", "new", "m"])))
        return last
    hs = list(range(1, n + 1))
    if r.random() < .2:
        hs.append(r.choice(hs))         # the same one twice
    full = merge(hs)
    p = hs[:]
    r.shuffle(p)
    merge(p, full)
    if len(hs) > 1:
        k = r.randint(1, len(hs) - 1)
        a, b = merge(hs[:k]), merge(hs[k:])
        merge([a, b], full)
        if r.random() < .5:
            merge([b, a], full)
        k = r.randint(1, len(p) - 1)
        a = merge(p[:k])
        merge(p[k:] + [a], full)
    merge([full], full)
    one = r.choice(hs)
    merge([one])
    if r.random() < .3:
        m = merge([one, one])
        merge([m, one])
    return ops


def s_mergeiso(g):
    """merges, and changes to sources and results in between"""
    r = g.r
    n = r.choice([1, 2, 2, 3])
    types = Types(g)
    uniform = r.random() < .5
    ops = []
    for h in range(1, n + 1):
        ops += [dict(op="new"), build(g, h, uniform_db(g, types, 1, False) if uniform else wild_db(g, .1, 1))]
    last = n
    for _ in range(r.randint(2, 4)):
        last += 1
        srcs = [r.randint(1, last - 1) for _ in range(r.randint(1, 3))]
        ops.append(dict(op="merge", srcs=srcs, how=r.choice(["new", "m"])))
        for _ in range(r.randint(3, 7)):
            h = r.choice([last, r.choice(srcs), r.randint(1, last)])
            k = r.random()
            if k < .5:
                ops.append(hit(g, h))
            elif k < .75:
                ops.append(setp(g, h))
            else:
                ops.append(mkp(g, h))
    return ops


def s_report(g):
    """reports over histories of hits, in all forms"""
    r = g.r
    ops = []
    n = r.choice([1, 1, 2])
    for h in range(1, n + 1):
        ops.append(dict(op="new", how=r.choice(["mem", "mem", "xml", "yaml"])))
        k = r.random()
        if k < .05:
            continue
        types = Types(g)
        ops.append(build(g, h, uniform_db(g, types, 0) if k < .4 else wild_db(g, r.choice([0, .1]))))
        ops += quiet(g, h, QUIET + ["atleast"])
    for _ in range(r.randint(1, 4)):
        h = r.randint(1, n)
        if r.random() < .3:
            ops.append(dict(op="report", of=h))
        for _ in range(g.some(1, 2, 2, 1)):
            ops.append(hit(g, h))
        if r.random() < .2:
            ops.append(setp(g, h, ("CG", "CI", "CP", "CR"), ["weight"]))
        if r.random() < .1:
            ops.append(mkp(g, h))
        ops.append(dict(op="report", of=h))
        if r.random() < .4:
            ops.append(dict(op="report", of=h))
    return ops


def s_mono(g):
    """small databases driven towards full coverage, a report after each hit"""
    r = g.r
    ops = [dict(op="new")]
    ninst = r.choice([1, 1, 2])
    insts, nb = [], 0
    for i in range(ninst):
        cgs = []
        for j in range(r.choice([1, 1, 2])):
            def items(k):
                cps = [dict(n="p%d" % x, w=r.choice([0, 1, 1, 2]),
                            bins=[dict(n="b%d" % y, k=r.choice(["bin", "bin", "bin", "ign", "ill"]),
                                       c=r.choice([0, 0, 0, 1]), al=r.choice([0, 1, 1, 2]))
                                  for y in range(r.choice([0, 1, 1, 2, 3]))]) for x in range(k)]
                crs = [dict(n="x%d" % x, w=r.choice([0, 1, 2]), pts=["p0"],
                            bins=[dict(n="c%d" % y, k=r.choice(["bin", "bin", "ign"]), c=0,
                                       al=r.choice([1, 1, 2])) for y in range(r.choice([1, 1, 2]))])
                       for x in range(r.choice([0, 0, 1]))] if k else []
                return dict(cps=cps, crs=crs)
            own = items(r.choice([0, 1, 1, 2]))
            cis = [dict(items(1), n="i%d" % x, w=1) for x in range(r.choice([0, 0, 1]))]
            cgs.append(dict(n="g%d" % j, w=r.choice([0, 1, 1, 3]), own=own, cis=cis))
            nb += sum(len(x["bins"]) for x in own["cps"] + own["crs"] + [p for c in cis for p in c["cps"] + c["crs"]])
        insts.append(dict(n="t%d" % i, du="m", cgs=cgs))
    ops += [build(g, 1, insts), dict(op="report", of=1)]
    order = [(k + .5) / max(nb, 1) for k in range(nb)]
    r.shuffle(order)
    for k in order[:14]:
        for _ in range(r.choice([1, 1, 2])):
            ops.append(dict(op="hit", h=1, pick=k, amt=1, dflt=True))
        ops.append(dict(op="report", of=1))
        if r.random() < .2:
            ops.append(r.choice([dict(op="json", of=1), dict(op="text", of=1, det=True, order=True),
                                 dict(op="report", of=1)]))
    return ops


def s_big(g):
    """coverpoints and crosses with many bins, all but a few of them hit"""
    r = g.r
    ops = [dict(op="new")]
    sizes = [8, 11, 22, 39, 49, 93, 99, 100, 101, 128, 150, 199, 200, 201, 256, 301, 333, 400]

    def item(n, cross=False):
        k = r.choice(sizes) if r.random() < .8 else 1000
        miss = set(r.sample(range(k), r.choice([0, 1, 1, 2, k - 1, k])))
        al = r.choice([0, 1, 1, 3])
        bins = [dict(n="%s[%d]" % (n, j), k="bin", c=r.choice([0, al - 1]) if al and j in miss else al + r.choice([0, 0, 5]),
                     al=al) for j in range(k)]
        if r.random() < .3:
            bins.insert(r.randrange(k), dict(n="ig", k="ign", c=1, al=al))
        it = dict(n=n, w=r.choice([1, 1, 2, 1000, 10 ** 6]), bins=bins)
        if cross:
            it["pts"] = ["p0"]
        return it

    def items(lo=1):
        k = r.choice([lo, 1, 1, 2])
        return dict(cps=[item("p%d" % j) for j in range(k)], crs=[item("x", True)] if k and r.random() < .3 else [])
    cgs = [dict(n="g%d" % j, w=r.choice([1, 1, 3]), own=items(), cis=[dict(items(0), n="i", w=1)] if r.random() < .3 else [])
           for j in range(r.choice([1, 1, 2]))]
    ops.append(build(g, 1, [dict(n="t", du="m", cgs=cgs)], shuffle=False))
    outs = [dict(op="report", of=1), dict(op="json", of=1),
            dict(op="text", of=1, det=r.random() < .5, order=r.random() < .5, how="tcrf", round=r.choice([0, 1, 2, 4])),
            dict(op="text", of=1, det=r.random() < .3)]
    left = []
    n = 0
    for c in cgs:
        for o in [c["own"]] + c["cis"]:
            for it in o["cps"] + o["crs"]:
                for b in it["bins"]:
                    if b["k"] == "bin" and b["c"] < b["al"]:
                        left.append((n, b["al"] - b["c"]))
                    n += 1
    ops += outs
    for k, a in r.sample(left, min(len(left), 2)):
        ops.append(dict(op="hit", h=1, pick=(k + .5) / n, amt=a))
        ops.append(r.choice(outs))
    return ops


def s_json(g):
    r = g.r
    ops = []
    n = r.choice([1, 2])
    for h in range(1, n + 1):
        ops.append(dict(op="new", how=r.choice(["mem", "mem", "xml"])))
        k = r.random()
        if k < .08:
            continue
        ops.append(build(g, h, uniform_db(g, Types(g), 0) if k < .4 else wild_db(g, r.choice([0, 0, .1]))))
        ops += quiet(g, h, QUIET + ["atleast"])
    for _ in range(r.randint(1, 3)):
        h = r.randint(1, n)
        ops.append(dict(op="json", of=h, how=r.choice(["new", "f"])))
        for _ in range(g.some(2, 1, 1)):
            ops.append(hit(g, h))
    ops.append(dict(op="json", of=r.randint(1, n), how="f"))
    return ops


def s_text(g):
    r = g.r
    ops = []
    n = r.choice([1, 2])
    for h in range(1, n + 1):
        ops.append(dict(op="new"))
        k = r.random()
        if k < .08:
            continue
        ops.append(build(g, h, uniform_db(g, Types(g), 0) if k < .4 else wild_db(g, 0)))
        ops += quiet(g, h, QUIET + ["atleast"])
    for _ in range(r.randint(2, 4)):
        h = r.randint(1, n)
        ops.append(dict(op="text", of=h, det=r.random() < .7, order=r.random() < .5,
                        how=r.choice(["new", "f", "tcrf", "tcrf"]), round=r.choice([0, 1, 2, 2, 3, 5])))
        for _ in range(g.some(2, 1, 1)):
            ops.append(hit(g, h))
    return ops


# XML documents

def xml_doc(g, full=True):
    """a document as a value: sections may hold instances of several types"""
    r = g.r
    types = Types(g)
    doc, names = [], []
    for _ in range(g.many(0, 2, 1, 1)):
        n = g.name(names)
        names.append(n)
        cgs, used = [], set()
        for _ in range(g.many(1, 4, 2, 1)):
            tys = [t for t in types.pool if t not in used]
            if not tys:
                break
            if r.random() < .75:
                tys = [r.choice(tys)]
            used |= set(tys)
            cis, un = [], []
            for _ in range(g.many(0, 4, 3, 2, 1)):
                t = r.choice(tys)
                x = g.name(un)
                un.append(x)
                cis.append(dict(uniform_ci(g, types.get(t), x), ty=t))
            w = types.get(tys[0])["w"] if len(tys) == 1 else g.weight()
            cgs.append(dict(w=w, cis=cis))
        doc.append(dict(n=n, mod=g.name() if r.random() < .85 else None, cgs=cgs))
    return doc


def xml_hist(g, n=None):
    r = g.r
    out = []
    for i in range(n or r.choice([1, 1, 2, 4])):
        h = dict(log=r.choice(["l%d" % i, "t", "<&>", "é"]), phys=r.choice([None, "p"]),
                 kind=r.choice([None, "1", "2", "UCIS:TEST", "other"]),
                 ok=r.choice(["true", "false", "1", "0"]))
        for at, k, t in xmlio.HATTR:
            if k in ("date", "toolcategory"):
                continue
            if r.random() < .5 or k.startswith("vendor"):
                h[k] = r.choice([0, 1, 5]) if k == "sametests" else r.choice(["0", "1", "2.5", "10"]) if t == "num" \
                    else r.choice(["x", "a b", "<&>\"'", "é", "0"])
        d = r.choice(["2020-01-02T03:04:05", "2023-12-31T23:59:59", "2020-01-02T03:04:05", "2024-02-29T00:00:00"])
        h["date"] = d + r.choice(["", "", "", ".5", ".123456", "Z", "+02:00"])
        h["toolcategory"] = r.choice(["UCIS:simulator", "x"])
        out.append(h)
    return out


def style(g):
    r = g.r
    return dict(ns=r.choice([None, "prefix", "default"]), decl=r.choice([None, "plain", "enc"]),
                shuffle=r.random() < .5, pretty=r.random() < .7, comments=r.random() < .3,
                odd_numbers=r.random() < .3, omit=r.random() < .5, extra=r.random() < .4,
                kinds=r.random() < .5, bins=r.choice(["range", "sequence", "mixed"]), nfiles=r.choice([1, 1, 3]),
                noise=r.random() < .5)


def xml_val(doc, hist):
    return {"k": "xml", "doc": xmlio.model_doc(doc), "hist": xmlio.model_hist(hist), "src": []}


BAD = {"k": "bad", "doc": [], "hist": [], "src": []}


def xml_file(g, f, doc=None, hist=None, st=None, gz=None):
    doc = xml_doc(g) if doc is None else doc
    hist = xml_hist(g) if hist is None else hist
    text = xmlio.render(doc, hist, st or style(g), g.r)
    code = None
    if g.r.random() < .25:
        text, code = encoded(g, text)
    return dict(op="file", f=f, text=text, enc=code, gz=g.r.random() < .25 if gz is None else gz, val=xml_val(doc, hist))


def encoded(g, text):
    """a document in some encoding, declared unless there is no need to"""
    r = g.r
    code, name = r.choice([("utf-8-sig", "UTF-8"), ("utf-16", "UTF-16"), ("latin-1", "ISO-8859-1"),
                           ("cp1252", "windows-1252"), ("ascii", "US-ASCII"), ("latin-1", "iso-8859-1"),
                           ("utf-8", "utf-8")])
    text = re.sub(r"^<\?xml[^>]*\?>", "", text)
    if code[:3] != "utf" or r.random() < .6:
        text = "<?xml version=%s encoding=%s?>" % r.choice([("'1.0'", "'%s'" % name), ('"1.0"', '"%s"' % name)]) + text
    return text, code


XREAD = ["factory", "factory", "rgy", "factoryfp", "factorybin", "new", "news", "r", "rs", "r", "rs"]
STRICT = ["factory", "rgy", "factoryfp", "factorybin"]


def xvalid(g, op):
    return dict(op="xvalid", f=op["f"], how=g.r.choice(["path", "path", "fp", "bin", "rpath", "rbin"]),
                cut=bool(op.get("cut")))


def bad_xml(g, f):
    """a document that has to be refused, and whether by every reader"""
    r = g.r
    doc, hist = xml_doc(g), xml_hist(g)
    st = style(g)
    st["omit"] = False
    st["comments"] = False
    st["ns"] = None
    how = r.choice(["cut", "junk", "plaintext", "empty", "tag", "amp", "noname", "badcount", "negcount", "nobins",
                    "nohist", "nosrc", "unknown", "order", "badtype", "badbool", "cross", "cross", "gzcut", "dupattr",
                    "badweight", "noinst", "baddate", "notest", "element", "nocontents"])
    text = xmlio.render(doc, hist, st, r)
    every, gz = False, False

    def first(a, b):
        nonlocal text
        i = text.find(a)
        if i < 0:
            return False
        # any occurrence
        occ = []
        while i >= 0:
            occ.append(i)
            i = text.find(a, i + 1)
        i = r.choice(occ)
        text = text[:i] + b + text[i + len(a):]
        return True
    done = True
    if how == "cut":
        text, every = text[:r.randrange(1, len(text.rstrip()) - 1)].rsplit("</", 1)[0], True
    elif how == "junk":
        text, every = text + "junk", True
    elif how == "plaintext":
        text, every = "not xml at all", True
    elif how == "empty":
        text, every = r.choice(["", " ", "\n"]), True
    elif how == "tag":
        done, every = first("</instanceCoverages>", "</instanceCoverage>"), True
    elif how == "amp":
        done, every = first("writtenBy=\"me\"", "writtenBy=\"a & b\""), True
    elif how == "noname":
        done = first("<options", "<optionz")
    elif how == "badcount":
        done = first("coverageCount=\"", "coverageCount=\"x")
    elif how == "negcount":
        done = first("coverageCount=\"", "coverageCount=\"-1")
    elif how == "nobins":
        done = first("<coverpointBin ", "<coverpointBim ")
    elif how == "nohist":
        hist = []
        text = xmlio.render(doc, hist, st, r)
    elif how == "nosrc":
        st["nfiles"] = 0
        text = xmlio.render(doc, hist, st, r)
    elif how == "unknown":
        done = first("<UCIS ", "<UCIS bogus=\"1\" ")
    elif how == "order":
        i, j = text.find("<sourceFiles"), text.find("<historyNodes")
        e = text.find(">", i) + 1
        text = text[:i] + text[e:j] + text[j:text.find("</UCIS>")] + text[i:e] + "</UCIS>"
    elif how == "badtype":
        done = first("weight=\"", "weight=\"w")
    elif how == "badweight":
        done = first("at_least=\"", "at_least=\"1.5")
    elif how == "badbool":
        i = text.find("testStatus=\"") + len("testStatus=\"")
        text = text[:i] + "maybe" + text[text.find("\"", i):]
    elif how == "baddate":
        i = text.find(" date=\"") + len(" date=\"")
        text = text[:i] + r.choice(["yesterday", "2020-13-40T00:00:00", "20200102030405", "2020-01-02"]) \
            + text[text.find("\"", i):]
    elif how == "notest":
        i = text.find(" testStatus=\"")
        text = text[:i] + text[text.find("\"", i + len(" testStatus=\"")) + 1:]
    elif how == "noinst":
        text = xmlio.render([], hist, st, r)
    elif how == "element":
        done = first("<id ", "<foo/><id ")
    elif how == "nocontents":
        done = first("<contents ", "<content ")
    elif how == "gzcut":
        gz, every = True, True
    elif how == "dupattr":
        done, every = first("ucisVersion=\"1.0\"", "ucisVersion=\"1.0\" ucisVersion=\"1.0\""), True
    elif how == "cross":
        every = True
        cis = [c for i in doc for cg in i["cgs"] for c in cg["cis"]]
        if not cis:
            return bad_xml(g, f)
        # a coverpoint that an earlier instance has, taken from a later one
        later = [(c, x, p) for i in doc for cg in i["cgs"] for k, c in enumerate(cg["cis"]) if k and len(c["cps"]) > 1
                 for x in c["crs"] for p in x["pts"] if p == p.strip()
                 if any(o["ty"] == c["ty"] and x["n"] in [y["n"] for y in o["crs"] if y["bins"]] for o in cg["cis"][:k])]
        if later and r.random() < .6:
            c, x, p = r.choice(later)
            c["cps"] = [q for q in c["cps"] if q["n"] != p]
            text = xmlio.render(doc, hist, st, r)
            return dict(op="file", f=f, text=text, gz=False, val=xml_val(doc, hist), why="later"), True
        c = r.choice(cis)
        miss = "no such point"
        if r.random() < .5:             # a coverpoint of another instance only
            others = [p["n"] for o in cis for p in o["cps"] if p["n"].strip() not in [q["n"] for q in c["cps"]]
                      and p["n"] not in [q["n"] for q in c["cps"]]]
            if others:
                miss = r.choice(others)
        if c["crs"] and r.random() < .5:
            x = r.choice(c["crs"])
            x["pts"].insert(r.randint(0, len(x["pts"])), miss)
        else:
            c["crs"].append(dict(n=g.name([x["n"] for x in c["crs"]]), w=1, al=1, pts=[miss], bins=[]))
        text = xmlio.render(doc, hist, st, r)
        return dict(op="file", f=f, text=text, gz=False, val=xml_val(doc, hist)), True
    if not done:
        return bad_xml(g, f)
    op = dict(op="file", f=f, text=text, gz=gz, val=BAD, why=how)
    if how == "gzcut":
        op["cut"] = r.randint(5, 40)
    return op, every


def s_xread(g):
    """XML documents in many forms and sequences"""
    r = g.r
    ops = []
    for i in range(r.randint(2, 4)):
        f = "f%d%s" % (i, r.choice([".xml", ".xml", "", ".xml.gz", ".txt"]))
        k = r.random()
        if k < .7:
            doc, hist = xml_doc(g), xml_hist(g)
            ops.append(xml_file(g, f, doc, hist))
            if r.random() < .4:
                ops.append(xvalid(g, ops[-1]))
            for h in r.sample(XREAD, r.randint(1, 3)):
                ops.append(dict(op="xread", f=f, how=h))
            if r.random() < .4:         # the same document in another form
                ops.append(xml_file(g, f, doc, hist))
                ops.append(dict(op="xread", f=f, how=r.choice(XREAD)))
        else:
            op, every = bad_xml(g, f)
            ops.append(op)
            for h in r.sample(XREAD if every else STRICT, 2):
                if op.get("cut"):
                    h = r.choice(["factory", "rgy"])
                ops.append(dict(op="xread", f=f, how=h))
    for j in range(2):
        ops.append(hit(g, r.randint(1, 6)))
    return ops


def s_xbad(g):
    """documents to be refused, between good ones"""
    r = g.r
    ops = [xml_file(g, "good.xml"), dict(op="xread", f="good.xml", how=r.choice(XREAD))]
    for i in range(3):
        op, every = bad_xml(g, "bad%d.xml" % i)
        ops.append(op)
        if r.random() < .5:
            ops.append(xvalid(g, op))
        for h in r.sample(XREAD if every else STRICT, 2):
            ops.append(dict(op="xread", f=op["f"], how=r.choice(["factory", "rgy"]) if op.get("cut") else h))
        ops.append(dict(op="xread", f="good.xml", how=r.choice(XREAD)))
        if r.random() < .3:
            ops.append(xvalid(g, ops[0]))
    return ops


def uneven(g, insts):
    """instances of a type that disagree on weights and at_least"""
    for c in [c for i in insts for c in i["cgs"]]:
        for o in c["cis"]:
            for it in o["cps"] + o["crs"]:
                if g.r.random() < .4:
                    it["w"] = g.weight()
                if g.r.random() < .4 and it["bins"]:
                    it["al"] = g.al()
                    for b in it["bins"]:
                        b["al"] = it["al"]
    return insts


def s_rt(g):
    """databases written to XML and read back"""
    r = g.r
    ops = []
    n = r.choice([1, 1, 2, 3])
    for h in range(1, n + 1):
        ops.append(dict(op="new", how=r.choice(["mem", "mem", "xml"])))
        insts = uniform_db(g, Types(g), 1, r.random() < .2)
        ops.append(build(g, h, uneven(g, insts) if r.random() < .25 else insts, shuffle=r.random() < .8))
        ops += quiet(g, h)
        if r.random() < .5:
            ops += hist_ops(g, h, r.choice([1, 2]), True)
        if r.random() < .3:
            ops.append(dict(op="fh", of=h, n=r.choice(g.files)))
    last = n
    for _ in range(r.randint(1, 3)):
        h = r.randint(1, last)
        ops.append(dict(op="xwrite", of=h, f="f%d.xml" % r.randint(1, 2), how=r.choice(
            ["factory", "factoryfp", "ucis", "new", "w", "w"])))
        ops.append(dict(op="xread", f=ops[-1]["f"], how=r.choice(XREAD)))
        last += 1
        if r.random() < .7:
            ops.append(dict(op="xwrite", of=last, f="g.xml", how=r.choice(["factory", "new", "w"])))
            ops.append(dict(op="xread", f="g.xml", how=r.choice(XREAD)))
            last += 1
        if r.random() < .5:
            ops.append(dict(op="report", of=h))
            ops.append(dict(op="report", of=last))
        if r.random() < .5:
            ops.append(hit(g, r.randint(1, last)))
    return ops


def s_xwrite(g):
    """databases of every kind written to XML"""
    r = g.r
    ops = []
    n = r.choice([1, 2, 2])
    for h in range(1, n + 1):
        ops.append(dict(op="new", how=r.choice(["mem", "mem", "xml", "yaml"])))
        if r.random() < .95:
            ops.append(build(g, h, uniform_db(g, Types(g), 1)))
            ops += quiet(g, h)
        if r.random() < .5:
            ops += hist_ops(g, h, r.choice([1, 2, 3]), True)
        if r.random() < .3:
            ops.append(dict(op="fh", of=h, n=r.choice(g.files)))
    for _ in range(r.randint(2, 4)):
        ops.append(dict(op="xwrite", of=r.randint(1, n), f="f%d.xml" % r.randint(1, 2),
                        how=r.choice(["factory", "factoryfp", "ucis", "new", "w", "w"])))
        if r.random() < .4:
            ops.append(hit(g, r.randint(1, n)))
    return ops


def s_histrt(g):
    r = g.r
    ops = [dict(op="new"), build(g, 1, uniform_db(g, Types(g), 1, False)[:1])]
    ops += hist_ops(g, 1, r.choice([1, 2, 3, 5]) if r.random() < .97 else r.choice([11, 12, 17]), True)
    tz = r.choice([None, None, "UTC", "EST5EDT", "CET-1CEST", "Asia/Kolkata"])
    ops.append(dict(op="xwrite", of=1, f="a.xml", how=r.choice(["factory", "new", "w"]), tz=tz))
    ops.append(dict(op="xread", f="a.xml", how=r.choice(XREAD)))
    ops.append(dict(op="xwrite", of=2, f="b.xml", how=r.choice(["factory", "w"])))
    ops.append(dict(op="xread", f="b.xml", how=r.choice(XREAD)))
    ops.append(hset(g, r.randint(1, 3), 1))
    ops.append(xml_file(g, "c.xml", hist=xml_hist(g)))
    ops.append(dict(op="xread", f="c.xml", how=r.choice(XREAD)))
    ops.append(dict(op="xwrite", of=4, f="d.xml"))
    ops.append(dict(op="xread", f="d.xml", how=r.choice(XREAD)))
    return ops


# YAML documents

def yaml_doc(g):
    r = g.r
    types = Types(g)
    doc, names = [], []
    for _ in range(g.many(1, 4, 3, 1)):
        n = g.name(names)
        names.append(n)
        ty = types.get(n)
        insts, un = [], []
        for _ in range(g.many(1, 3, 4, 2, 1)):
            x = g.name(un)
            un.append(x)
            ci = uniform_ci(g, ty, x, full=r.random() < .7)
            for c in ci["crs"]:
                seen = {}
                for b in c["bins"]:     # crosses have regular bins only
                    seen.setdefault(b["n"], dict(b, k="bin"))
                c["bins"] = list(seen.values())
            for c in ci["cps"]:
                if r.random() < .15:    # no regular bins
                    c["bins"] = [b for b in c["bins"] if b["k"] != "bin"]
                c["bins"] = [b for k in ("bin", "ign", "ill") for b in c["bins"] if b["k"] == k]
            insts.append(ci)
        doc.append(dict(n=n, w=ty["w"], insts=insts))
    return doc


def yaml_text(g, data):
    r = g.r
    k = r.randrange(7)
    if k == 0:
        return json.dumps(data, ensure_ascii=False)
    if k == 1:
        return json.dumps(data, ensure_ascii=False, indent=2)
    kw = dict(sort_keys=r.random() < .3, allow_unicode=r.random() < .5, width=r.choice([20, 80, 4000]),
              default_flow_style=r.choice([None, False, True]), explicit_start=r.random() < .3,
              default_style=r.choice([None, None, '"', "'"]) if False else None, indent=r.choice([2, 4]))
    t = yaml.safe_dump(data, **kw)
    if r.random() < .3:
        t = "# c\n" + t + "# end\n"
    return t


def yaml_file(g, f, doc=None):
    doc = yaml_doc(g) if doc is None else doc
    data = xmlio.yaml_data(doc, dict(omit=g.r.random() < .5, extra=g.r.random() < .2), g.r)
    return dict(op="file", f=f, text=yaml_text(g, data),
                enc=g.r.choice(["utf-8-sig", "utf-16"]) if g.r.random() < .15 else None,
                val={"k": "yaml", "doc": xmlio.model_yaml(doc), "hist": [], "src": []})


YREAD = ["rgy", "rgy", "new", "news", "newb", "r", "r", "rs", "rb"]


def bad_yaml(g, f):
    r = g.r
    doc = yaml_doc(g)
    data = xmlio.yaml_data(doc, dict(omit=False), r)
    cgs = data["coverage"]["covergroups"]
    insts = [i for c in cgs for i in c["instances"]]
    cps = [c for i in insts for c in i["coverpoints"]]
    crs = [c for i in insts for c in i["crosses"]]
    bins = [b for c in cps for k in ("bins", "ignorebins", "illegalbins") for b in c[k]] + \
        [b for c in crs for b in c["bins"]]
    how = r.choice(["text", "list", "scalar", "empty", "parse", "tab", "covlist", "cgsdict", "noname", "noname",
                    "badname", "badname", "badweight", "nobins", "nocount", "badcount", "badcount", "badal",
                    "instdict", "binsdict", "nopts", "ptsdict", "unknown", "unknown", "foreign", "ptint", "nullbins",
                    "nullcov", "later", "later"])
    raw = None

    def pick(l):
        return r.choice(l) if l else None
    ok = True
    if how == "text":
        raw = "just some text\n"
    elif how == "list":
        data = [data]
    elif how == "scalar":
        raw = "5\n"
    elif how == "empty":
        raw = r.choice(["", "# only a comment\n", "---\n"])
    elif how == "parse":
        raw = r.choice(["coverage: [", "coverage: {covergroups: [}", "a: b: c", "\"x", "coverage:\n  covergroups:\n - a\n   - b\n"])
    elif how == "tab":
        raw = "coverage:\n\tcovergroups: []\n"
    elif how == "covlist":
        data["coverage"] = cgs
    elif how == "nullcov":
        data["coverage"] = None
    elif how == "cgsdict":
        data["coverage"]["covergroups"] = r.choice([{"a": 1}, "x", 5, None])
    elif how == "noname":
        x = pick(cgs + insts + cps + crs + bins)
        ok = x is not None
        if ok:
            del x["name"]
    elif how == "badname":
        x = pick(cgs + insts + cps + crs + bins)
        ok = x is not None
        if ok:
            x["name"] = r.choice([5, None, True, ["a"], {"a": 1}, 1.5])
    elif how == "badweight":
        x = pick(cgs)
        ok = x is not None
        if ok:
            x["weight"] = r.choice(["1", 1.5, None, [1], True])
    elif how == "nobins":
        x = pick(cps)
        ok = x is not None
        if ok:
            del x["bins"]
    elif how == "nullbins":
        x = pick(cps)
        ok = x is not None
        if ok:
            x[r.choice(["bins", "ignorebins", "illegalbins"])] = None
    elif how == "nocount":
        x = pick(bins)
        ok = x is not None
        if ok:
            del x["count"]
    elif how == "badcount":
        x = pick(bins)
        ok = x is not None
        if ok:
            x["count"] = r.choice(["1", 1.5, None, [1], True, "many"])
    elif how == "badal":
        x = pick(cps + crs)
        ok = x is not None
        if ok:
            x["atleast"] = r.choice(["1", 1.5, None, False, {}])
    elif how == "instdict":
        x = pick(cgs)
        ok = x is not None
        if ok:
            x["instances"] = r.choice([{"a": 1}, "x", None, [1], ["x"]])
    elif how == "binsdict":
        x = pick(cps)
        ok = x is not None
        if ok:
            x[r.choice(["bins", "ignorebins", "illegalbins"])] = r.choice([{"a": 1}, "x", 3, [1], ["b"], [["b", 1]]])
    elif how == "nopts":
        x = pick(crs)
        ok = x is not None
        if ok:
            del x["coverpoints"]
    elif how == "ptsdict":
        x = pick(crs)
        ok = x is not None
        if ok:
            x["coverpoints"] = r.choice(["cp", {"a": 1}, None])
    elif how == "ptint":
        x = pick(crs)
        ok = x is not None
        if ok:
            x["coverpoints"] = r.choice([[1], [None], [{"name": "cp"}]])
    elif how == "later":
        l = [(i, x) for c in cgs for i in c["instances"][1:] for x in i["crosses"] if len(i["coverpoints"]) > 1]
        ok = bool(l)
        if ok:
            i, x = r.choice(l)
            p = r.choice(x["coverpoints"])
            i["coverpoints"] = [q for q in i["coverpoints"] if q["name"] != p]
    else:                               # a cross over a coverpoint its instance lacks
        i = pick(insts)
        ok = i is not None
        if ok:
            have = [c["name"] for c in i["coverpoints"]]
            miss = "no such point"
            if how == "foreign":
                o = [c["name"] for c in cps if c["name"] not in have]
                ok = bool(o)
                miss = pick(o)
            if i["crosses"] and r.random() < .5:
                x = pick(i["crosses"])
                x["coverpoints"].insert(r.randint(0, len(x["coverpoints"])), miss)
            else:
                i["crosses"].append({"name": "newx", "coverpoints": [miss], "bins": []})
    if not ok:
        return bad_yaml(g, f)
    return dict(op="file", f=f, text=raw if raw is not None else yaml_text(g, data), val=BAD, why=how)


def s_yread(g):
    r = g.r
    ops = []
    for i in range(r.randint(2, 4)):
        f = "f%d.yml" % i
        doc = yaml_doc(g)
        ops.append(yaml_file(g, f, doc))
        for h in r.sample(YREAD, r.randint(1, 2)):
            ops.append(dict(op="yread", f=f, how=h))
        if r.random() < .3:
            ops.append(yaml_file(g, f, doc))
            ops.append(dict(op="yread", f=f, how=r.choice(YREAD)))
    for j in range(2):
        ops.append(hit(g, r.randint(1, 4)))
    return ops


def s_ybad(g):
    r = g.r
    ops = [yaml_file(g, "good.yml"), dict(op="yread", f="good.yml", how=r.choice(YREAD))]
    for i in range(3):
        ops.append(bad_yaml(g, "bad%d.yml" % i))
        ops.append(dict(op="yread", f=ops[-1]["f"], how=r.choice(YREAD)))
        if r.random() < .6:
            ops.append(dict(op="yread", f="good.yml", how=r.choice(YREAD)))
    return ops


# In-memory databases

def s_mem(g):
    """creations one by one, and iterations over what there is"""
    r = g.r
    ops = []
    n = r.choice([1, 2, 2])
    steps = []
    for h in range(1, n + 1):
        ops.append(dict(op="new", how=r.choice(["mem", "mem", "xml", "yaml"])))
        l = linear(g, wild_db(g, .3, 1)[:2])
        for x in l:
            x["h"] = h
            if x["op"] == "bin" and r.random() < .2:
                x["k"] = r.choice(["def", "usr"])
        steps.append(l[:r.choice([10, 20, 30])])
    while any(steps):
        l = r.choice([x for x in steps if x])
        ops.append(l.pop(0))
        if r.random() < .12:
            ops.append(iters(g, n))
        if r.random() < .06:
            ops.append(dict(op="fh", of=r.randint(1, n), n=r.choice(g.files + ["c.sv"]),
                            wd=r.choice([None, "/w", "."]), how=r.choice(["c", "oo"])))
    h = r.randint(1, n)
    for _ in range(g.some(1, 2, 2, 1)):
        k = r.random()
        if k < .3:
            ops.append({"op": "mk", "h": h, "pick": r.random(), "in": ["INST"], "t": "TOG", "n": g.name(),
                        "how": r.choice(["c", "oo"])})
        elif k < .6:
            ops.append({"op": "mk", "h": h, "pick": r.random(), "in": ["INST"], "t": "INST", "n": g.name(),
                        "w": g.weight(), "how": r.choice(["c", "oo"]), "du": r.choice([None, [1]])})
        else:
            ops.append(mkp(g, h))
    ops.append(iters(g, n))
    return ops


def iters(g, n):
    r = g.r
    qs = []
    for _ in range(r.randint(1, 4)):
        scopes = r.random() < .6
        t = r.choice(["CG", "CI", "INST", "ROOT", "CG"]) if scopes else r.choice(["CP", "CR", "CP"])
        allm = ["INST", "CG", "CI", "CP", "CR", "DU", "DU2", "DU3", "TOG"] if scopes else ["bin", "ign", "ill", "def", "usr"]
        qs.append({"h": r.randint(1, n), "pick": r.random(), "in": [t],
                   "what": "scopes" if scopes else "bins",
                   "mask": r.sample(allm, r.choice([1, 1, 2, 3, len(allm)]))})
    if r.random() < .4:
        qs.append(dict(r.choice(qs)))
    return dict(op="iter", qs=qs)


def s_hits(g):
    """hits among everything else that can be done"""
    r = g.r
    n = r.choice([1, 2, 3])
    ops = []
    types = Types(g)
    for h in range(1, n + 1):
        ops += [dict(op="new"), build(g, h, uniform_db(g, types, 1, False) if r.random() < .5 else wild_db(g, .2, 1))]
    last = n
    for _ in range(r.randint(8, 16)):
        h = r.randint(1, last)
        k = r.random()
        if k < .6:
            ops.append(hit(g, h))
        elif k < .7:
            ops.append(mkp(g, h))
        elif k < .8:
            ops.append(setp(g, h))
        elif k < .85:
            ops.append(dict(op="report", of=h))
        elif k < .9:
            ops.append(dict(op="xwrite", of=h, f="a.xml", how="new"))
        elif last < 5:
            ops.append(dict(op="merge", srcs=[r.randint(1, last) for _ in range(2)]))
            last += 1
    return ops


def s_props(g):
    """properties set through both interfaces"""
    r = g.r
    n = r.choice([1, 2])
    ops = []
    for h in range(1, n + 1):
        ops += [dict(op="new"), build(g, h, wild_db(g, .2, 1)[:1])]
    for _ in range(r.randint(10, 20)):
        h = r.randint(1, n)
        k = r.random()
        if k < .8:
            ops.append(setp(g, h))
        elif k < .9:
            ops.append(mkp(g, h))
        else:
            ops.append(hit(g, h))
    return ops


def attr(g, h):
    """something about items, records or attributes"""
    r = g.r
    k = r.random()
    at = {"pick": r.random(), "in": r.choice([["INST"], ["INST", "TOG"], ["TOG"]])}
    if k < .35:
        return dict(at, op="item", h=h, n=g.name(), c=r.choice([0, 1, 5]), how=r.choice(["c", "oo"]),
                    src=r.choice([None, ["a.sv", r.randint(1, 9), 0]]))
    if k < .6:
        return dict(at, op="set", h=h, k="item", i=r.random(), v=r.choice([0, 1, 2, 7, 2 ** 33]),
                    how=r.choice(["c", "oo", "item"]))
    if k < .64:
        return dict(at, op="baditem", h=h, i=r.choice([0, 0, 1, 100, -1, -1, -2]), how=r.choice(["set", "get", "item"]))
    if k < .78:
        return dict(op="record", h=h, n=g.name(), f=r.choice(g.files), line=r.randint(0, 3), item=r.randint(0, 3),
                    how=r.choice(["file", "fh"]))
    if k < .9:
        k = r.choice(["by", "time", "weight", "goal"])
        return dict(op="set", h=h, path=[], k=k, v=g.name() if k == "by" else r.choice([0, 1, 50, 100, 2 ** 33]),
                    how=r.choice(["c", "oo"]))
    x = dict(op="set", h=h, k="srctype", v=r.choice([0, 1, 2, 6, 10, 11]), how=r.choice(["c", "oo"]))
    return dict(x, path=[]) if r.random() < .2 else dict(x, **{"pick": r.random(), "in": ["DU", "INST", "CG", "CI", "CP", "CR", "TOG"]})


def attr_pair(g, h):
    """several attributes of one thing, one after the other"""
    r = g.r
    at = dict(path=[]) if r.random() < .25 else {"pick": r.random(), "in": [r.choice(["DU", "INST", "CG", "CI", "CP", "CR", "TOG"])]}
    if "path" in at:
        ks = ["by", "time", "weight", "goal", "srctype"]
    elif at["in"][0] in ("DU", "INST", "TOG"):
        ks = ["weight", "goal", "srctype"]
    else:
        ks = PROPS + ["srctype"]
    ks = r.sample(ks, r.randint(2, min(3, len(ks))))
    ops = []
    for k in ks:
        if k == "by":
            v = g.name()
        elif k == "srctype":
            v = r.choice([0, 1, 2, 6, 10, 10, 11])
        elif k == "comment":
            v = r.choice(TEXTS)
        elif k in ("overlap", "perinst", "mergeinst"):
            v = r.choice([0, 1])
        else:
            v = r.choice([0, 1, 2, 50, 100, 2 ** 33])
        ops.append(dict(at, op="set", h=h, k=k, v=v, how=r.choice(["c", "oo"])))
    return ops


def s_attrs(g):
    """items of design instances, records of instance coverage, attributes of databases"""
    r = g.r
    n = r.choice([1, 2, 2])
    ops = []
    for h in range(1, n + 1):
        ops += [dict(op="new", how=r.choice(["mem", "xml", "yaml"])), build(g, h, wild_db(g, .2, 1)[:2])]
        for _ in range(r.randint(1, 3)):
            ops.append({"op": "mk", "h": h, "pick": r.random(), "in": ["INST"], "t": r.choice(["TOG", "INST"]),
                        "n": g.name(), "w": g.weight(), "how": r.choice(["c", "oo"]), "du": None})
    for _ in range(r.randint(15, 30)):
        h = r.randint(1, n)
        k = r.random()
        if k < .68:
            ops.append(attr(g, h))
        elif k < .82:
            ops += attr_pair(g, h)
        elif k < .88:
            ops.append(setp(g, h))
        elif k < .92:
            ops.append(hit(g, h))
        elif k < .96:
            ops.append({"op": "mk", "h": h, "pick": r.random(), "in": ["INST"], "t": r.choice(["TOG", "INST"]),
                        "n": g.name(), "w": g.weight(), "how": r.choice(["c", "oo"]), "du": None})
        else:
            ops.append(r.choice([dict(op="report", of=h), dict(op="json", of=h),
                                 dict(op="hist", h=h, log="l", phys="p", kind=1),
                                 dict(op="fh", of=h, n=r.choice(g.files))]))
    return ops


def s_hist(g):
    r = g.r
    n = r.choice([1, 2])
    ops = [dict(op="new") for _ in range(n)]
    l = [hist_ops(g, h, r.choice([1, 2, 4, 6])) for h in range(1, n + 1)]
    while any(l):
        ops.append(r.choice([x for x in l if x]).pop(0))
    for _ in range(r.randint(2, 6)):
        ops.append(r.choice([hset, hset, hset_data])(g, r.randint(1, n), r.randint(1, 4)))
    return ops


# The command line

def opt(g, long, short, v):
    r = g.r
    return r.choice([[long, v], [long + "=" + v], [short, v]])


def cli(g, cmd, ins, out=None, infmt=None, outfmt=None, real=False, **kw):
    r = g.r
    parts = []
    if out is not None:
        parts.append(opt(g, "--out", "-o", out))
    if infmt is not None:
        parts.append(opt(g, "--input-format", "-if", infmt))
    if outfmt is not None:
        parts.append(opt(g, "--output-format", "-of", outfmt))
    r.shuffle(parts)
    k = r.randint(0, len(parts))
    argv = [cmd] + [x for p in parts[:k] for x in p] + list(ins) + [x for p in parts[k:] for x in p]
    if r.random() < .2:                 # arguments of others, anywhere
        for _ in range(r.randint(1, 2)):
            argv.insert(r.randint(0, len(argv)), r.choice(["+x", "+x=1", "+", "++", "+UVM_TESTNAME=t", "+-o"]))

    def plain(f):                       # a name, as the file is known
        for x in ("@/", "./", "sub/../"):
            if f.startswith(x):
                return f[len(x):]
        return f
    if out and cmd and r.random() < .06 and all(ord(c) < 128 for a in argv for c in a):
        kw["ascii"] = True
    return dict(op="cli", cmd=cmd, argv=argv, ins=[plain(f) for f in ins], out=plain(out or ""), infmt=infmt,
                outfmt=outfmt, real=real, **kw)


INS = ["in%d"] * 5 + ["@in%d", "in put%d", "é%d", "%%s%d", "IN%d", ".in%d"]


def out_name(g, *names):
    """an output file, in some directory, by some path"""
    r = g.r
    n = r.choice(names)
    return n if r.random() < .5 else r.choice(["@/", "./", "sub/", "@/sub/", "sub/../"]) + n


SUB = dict(op="file", f="sub/keep.xml", text="kept", val=dict({"k": "bad", "doc": [], "hist": [], "src": []}, k="other"))


def db_file(g, f, fmt, types_doc=None):
    if fmt == "xml":
        return xml_file(g, f)
    return yaml_file(g, f)


def s_cliwrite(g):
    """convert and merge"""
    r = g.r
    fmt = r.choice(["xml", "xml", "yaml"])
    n = r.choice([1, 2, 3, 4, 5, 6]) if r.random() < .9 else 11
    ins = [r.choice(INS) % i + "." + r.choice([fmt, "dat", "xml", "yaml", "json", "gz"]) for i in range(n)]
    ops = []
    doc0, alike = None, r.choice([0, .9])
    # inputs of the same types, so that they overlap
    shared = Types(g)
    keep = globals()["Types"]
    globals()["Types"] = lambda gg, nt=None: shared
    try:
        for f in ins:
            if fmt == "yaml":
                d = None
                while d is None or not plain_yaml(d):
                    d = yaml_doc(g)
                ops.append(yaml_file(g, f, d))
            elif doc0 is not None and r.random() < alike:
                ops.append(xml_file(g, f, variant_doc(g, doc0)))
            else:
                doc0 = xml_doc(g)
                ops.append(xml_file(g, f, doc0))
    finally:
        globals()["Types"] = keep
    if r.random() < .4:
        ops.append(dict(op="file", f="o.xml", text="old content " * r.choice([1, 5000]), val=dict(BAD, k="other")))
    given = fmt if fmt != "xml" or r.random() < .5 else None
    ops.append(SUB)
    for _ in range(r.randint(1, 3)):
        of = r.choice([None, "xml"])
        o = out_name(g, "o.xml", "o.xml", "o.xml", "o.yaml", "o.gz", "o", "out.txt", "in.json", ".o")
        if r.random() < .12:            # in place of an input
            o = r.choice(["", "./", "@/"]) + r.choice([f for f in ins if f[0] != "@"] or ["o.xml"])
        if r.random() < .4:
            ops.append(cli(g, "convert", [r.choice(["", "", "./", "@/"]) + r.choice(ins)], o, given, of))
        else:
            k = r.randint(1, n) if n < 10 else n
            l = r.sample(ins, k)
            if r.random() < .15:
                l.append(r.choice(l))
            ops.append(cli(g, "merge", l, o, given, of, uniform=True))
        o = ops[-1]["out"]
        if r.random() < .5:
            ops.append(dict(op="xread", f=o, how=r.choice(["factory", "new"])))
        if r.random() < .3:
            ops.append(cli(g, "report", [o], None, None, "json"))
    return ops


def plain_yaml(doc):
    """what XML can express: every instance has coverpoints, each with bins"""
    return bool(doc) and all(g["insts"] and all(i["cps"] and all(c["bins"] for c in i["cps"]) for i in g["insts"])
                             for g in doc)


def s_clireport(g):
    r = g.r
    ops = []
    for i in range(r.randint(1, 2)):
        fmt = r.choice(["xml", "yaml"])
        f = r.choice(INS) % i + "." + r.choice([fmt, "dat", "xml", "yaml", "json", "txt", "gz"])
        ops += [db_file(g, f, fmt), SUB]
        for _ in range(r.randint(1, 2)):
            out = out_name(g, "r.out", "r.json", "r.txt", "r.xml", "r.html", "r", "r.yaml") if r.random() < .6 else None
            if r.random() < .05 and f[0] != "@":
                out = r.choice(["", "@/"]) + f
            elif out and r.random() < .5:
                ops.append(dict(op="file", f=cli(g, "", [], out)["out"], text="old " * r.choice([1, 20000]), val=dict(BAD, k="other")))
            ops.append(cli(g, "report", [r.choice(["", "", "./", "@/"]) + f], out, fmt if fmt == "yaml" or r.random() < .5 else None,
                           r.choice([None, "txt", "json", "json"])))
    if r.random() < .3:
        c, want = r.choice([("list-db-formats", ["libucis", "xml", "yaml"]), ("list-rpt-formats", ["json", "txt"])])
        ops.append(dict(op="cli", cmd="list", argv=[c], want=want))
    return ops


def s_clibad(g):
    """commands that have to fail, and some that have to succeed"""
    r = g.r
    fmt = r.choice(["xml", "xml", "yaml"])
    good, bad = ["good0", "good1"], ["bad0"]
    ops = []
    for f in good:
        if fmt == "yaml":
            d = None
            while d is None or not plain_yaml(d):
                d = yaml_doc(g)
            ops.append(yaml_file(g, f, d))
        else:
            ops.append(xml_file(g, f))
    if fmt == "xml":
        op, _ = bad_xml(g, "bad0")
    else:
        op = bad_yaml(g, "bad0")
    ops.append(op)
    other = "yaml" if fmt == "xml" else "xml"
    if r.random() < .5:
        ops.append(db_file(g, "other", other))
        bad.append("other")
    bad += ["missing", "none/missing", "sub", "@/missing"]
    ops.append(SUB)
    out = out_name(g, "o.xml", "o.xml", "o.txt", "o.json", "o")
    if r.random() < .1:                 # in place of an input
        out = r.choice(["", "./", "@/"]) + r.choice(good)
    elif r.random() < .6:
        ops.append(dict(op="file", f=cli(g, "", [], out)["out"], text="precious " * r.choice([1, 1000]),
                        val=dict(BAD, k="other")))
    if r.random() < .2:
        # something XML cannot carry
        text = json.dumps({"coverage": {"covergroups": [{"name": "g\u0001x" if r.random() < .5 else "g", "instances": [
            {"name": "i", "coverpoints": [{"name": "p", "bins": [{"name": "b\u0001", "count": 1}]}]}]}]}})
        ops.append(dict(op="file", f="unrep", text=text, val={"k": "yaml", "hist": [], "src": [], "doc": []}))
        ops.append(cli(g, r.choice(["convert", "merge"]), ["unrep"], out, "yaml", None, unrep=True))
    if r.random() < .2:
        # something no file can carry
        text = json.dumps({"coverage": {"covergroups": [{"name": r.choice(["g\ud800x", "g"]), "instances": [
            {"name": "i", "coverpoints": [{"name": "p\udfff", "bins": [{"name": "b", "count": 1}]}]}]}]}})
        ops.append(dict(op="file", f="unrep2", text=text, val={"k": "yaml", "hist": [], "src": [], "doc": []}))
        ops.append(cli(g, r.choice(["convert", "merge", "report"]), ["unrep2"], out, "yaml", None,
                       unrep=True))
    for _ in range(r.randint(3, 5)):
        given = fmt if fmt != "xml" or r.random() < .5 else None
        k = r.random()
        if k < .35:
            l = r.sample(good, r.randint(0, 2)) if r.random() < .8 else [r.choice(good) for _ in range(r.randint(3, 11))]
            l.insert(r.randint(0, len(l)), r.choice(bad))
            ops.append(cli(g, "merge", l, out, given, r.choice([None, "xml"])))
        elif k < .5:
            ops.append(cli(g, "convert", [r.choice(bad)], out, given, r.choice([None, "xml"])))
        elif k < .65:
            ops.append(cli(g, "report", [r.choice(bad)], r.choice([None, out]), given,
                           r.choice([None, "txt", "json"])))
        elif k < .75:
            c = r.choice(["convert", "merge"])
            ops.append(cli(g, c, [good[0]], out, given, r.choice(["yaml", "bogus", "XML", "json"])))
        elif k < .8:
            ops.append(cli(g, "report", [good[0]], r.choice([None, out]), given, r.choice(["xml", "bogus", "html"])))
        elif k < .83:                   # nowhere to write
            c = r.choice(["convert", "merge", "report"])
            ops.append(cli(g, c, [good[0]], r.choice(["none/o.xml", "sub", "sub/none/o", "good0/o"]), given, None, unrep=True))
        elif k < .9:
            c = r.choice(["convert", "merge", "report"])
            ops.append(cli(g, c, [good[0]], out, r.choice(["bogus", other, "JSON"]), None))
        else:
            ops.append(r.choice([cli(g, "merge", good, out, fmt, None), cli(g, "convert", [good[0]], out, fmt, None),
                                 cli(g, "report", [good[1]], None, fmt, "json")]))
    return ops


FMT_NAMES = ["mine", " a", "a", "xml2", "zz", "XML", "Yaml", "my fmt", "x.y", "json-2", "xml", "yaml", "txt", "json", "libucis",
             "fünf", "0", "*", "xm", "text", "merge", ""]


def s_fmts(g):
    """formats of one's own: registered, listed, found, used"""
    r = g.r
    ops = []
    files = {}
    for i in range(r.randint(1, 2)):
        for fmt in ("xml", "yaml"):
            if i == 0 or r.random() < .5:
                f = "in%d.%s" % (i, r.choice([fmt, "dat"]))
                d = None
                while d is None or (fmt == "yaml" and not plain_yaml(d)):
                    d = yaml_doc(g)
                ops.append(xml_file(g, f) if fmt == "xml" else yaml_file(g, f, d))
                files[f] = fmt
    ops.append(SUB)
    names = r.sample(FMT_NAMES, r.randint(2, 5))
    ops.insert(r.choice([0, 0, len(ops)]), dict(op="rgstart", names=names))
    db = {"xml": "xml", "yaml": "yaml", "libucis": "lib"}
    rpt = {"txt": ("txt", "stream"), "json": ("json", "stream")}
    used = []
    for _ in range(r.randint(6, 11)):
        k = r.random()
        if k < .4 or not used:
            kind, n = r.choice(["db", "rpt"]), r.choice(names)
            d = r.choice(["A format", "", "Reads - and writes", "größer", "x" * 90, "A format", "%s %d", " lead"])
            what = r.choice(["xml", "yaml", "xml", "none"]) if kind == "db" else r.choice(["txt", "json"])
            to = "none" if kind == "db" else r.choice(["stream", "stream", "dir", "dir", "none"])
            ops.append(dict(op="fmt", kind=kind, n=n, **{"as": what}, to=to, d=d, fl=r.choice([0, 1, 2, 6, 7]),
                            how=r.choice(["inst", "kept", "pos"]), cls=r.choice(["new", "new", "last", "base"])))
            if kind == "db":
                db[n] = what
            else:
                rpt[n] = (what, to)
            used.append((kind, n))
            continue
        if k < .5:
            how = r.choice(["ctor", "db", "rpt", "dbif", "dbcreate", "rptif"])
            n = r.choice([x for x in names + ["nofmt", "txt", "xml"] if x not in (db if how == "db" else rpt)] or ["nofmt"])
            ops.append(dict(op="badfmt", how=how, n=n))
            continue
        if k < .62:
            ops.append(dict(op="cli", cmd="list", argv=[r.choice(["list-db-formats", "list-rpt-formats"])]))
            continue
        f = r.choice(sorted(files))
        fit = [n for n in sorted(db) if n and db[n] == files[f]]
        mine = [n for n in fit if n not in ("xml", "yaml")] or fit
        infmt = r.choice(mine) if mine and r.random() < .85 else r.choice([n for n in sorted(db) if n] + ["nofmt"])
        if infmt == "xml" and r.random() < .5:
            infmt = None
        if r.random() < .6:
            o = r.choice([n for n in sorted(rpt) if n] * 3 + [n for n in names if n] + ["nofmt"])
            to = rpt.get(o, ("", "none"))[1]
            out = r.choice(["r", "new", "new/er", "sub", "d.out", "@/r", None] if to == "dir" else ["r", "r.txt", None, "d.out"])
            if out and "sub" not in out and "new" not in out and r.random() < .35:
                base = cli(g, "", [], out)["out"]
                # (a name is a file or a directory, for good)
                if not any(x.get("f", x.get("out")) == base or str(x.get("f", "")).startswith(base + "/") for x in ops):
                    if to == "dir" and r.random() < .7:
                        ops.append(dict(op="file", f=base + "/" + r.choice(["index.txt", "old", "deep/er"]), text="old",
                                        val=dict(BAD, k="other")))
                    else:
                        ops.append(dict(op="file", f=base, text="old " * 3, val=dict(BAD, k="other")))
            # where there is a directory a file cannot be written
            ops.append(cli(g, "report", [f], out, infmt, o if o != "txt" or r.random() < .5 else None))
        else:
            o = r.choice([n for n in sorted(db) if n and db[n] == "xml"] * 4 + [n for n in sorted(db) if n] + ["nofmt"])
            out = r.choice(["o.xml", "o2"])
            ops.append(cli(g, r.choice(["convert", "merge"]), [f], out, infmt, o if o != "xml" or r.random() < .5 else None,
                           uniform=True))
    return ops


def s_iso(g):
    """everything on several databases at once, with readers, writers and mergers reused"""
    r = g.r
    ops = []
    last = 0
    types = Types(g)
    nf = 0
    n = r.choice([2, 2, 3])
    for h in range(1, n + 1):
        ops.append(dict(op="new", how=r.choice(["mem", "xml", "yaml"])))
        ops.append(build(g, h, uniform_db(g, types, 1, False) if r.random() < .6 else wild_db(g, .3, 1)))
        last += 1
    for _ in range(r.randint(8, 14)):
        h = r.randint(1, last)
        k = r.randrange(12)
        if k <= 2:
            ops.append(hit(g, h))
        elif k == 3:
            ops.append(setp(g, h))
        elif k == 4:
            ops.append(mkp(g, h))
        elif k == 5 and last < 7:
            ops.append(dict(op="merge", srcs=[r.randint(1, last) for _ in range(r.randint(1, 3))], how="m"))
            last += 1
        elif k == 6 and last < 7:
            nf += 1
            ops.append(yaml_file(g, "y%d" % nf))
            ops.append(dict(op="yread", f="y%d" % nf, how="r"))
            last += 1
        elif k == 7 and last < 7:
            nf += 1
            ops.append(xml_file(g, "x%d" % nf, gz=False))
            ops.append(dict(op="xread", f="x%d" % nf, how="r"))
            last += 1
        elif k == 8 and last < 7 and h <= n:
            ops.append(dict(op="hist", h=h, log="t", kind=1))
            ops.append(dict(op="xwrite", of=h, f="w", how="w"))
        elif k == 9:
            ops.append(r.choice([dict(op="report", of=h), dict(op="json", of=h, how="f"),
                                 dict(op="text", of=h, det=True, how="f")]))
        elif k == 10:
            ops.append(dict(op="fh", of=h, n=r.choice(g.files)))
        elif last < 7:
            ops.append(dict(op="new"))
            last += 1
    return ops


# The library back end

import native                           # noqa: E402  (tables only)

NPAR = {"ROOT": ["DU", "DU", "DU", "INST", "INST", "INST", "X", "TOG"], "INST": ["CG", "CG", "CG", "INST", "TOG", "X"], "X": ["X", "CG", "TOG"],
        "CG": ["CP", "CP", "CP", "CI", "CR", "CR"], "CI": ["CP", "CP", "CR"], "CP": [], "CR": [], "DU": ["X", "CG", "TOG"], "TOG": []}
OTHERS = [t for t in native.TYPES if t not in ("TOG", "INST", "CG", "CI", "CP", "CR") and not t.startswith("DU")]


class Lib:
    """a database of the library back end, as created so far"""

    def __init__(self, h):
        self.h = h
        self.scopes = [([], "ROOT")]
        self.kids = {(): []}
        self.bins = []
        self.nh = 0
        self.line = 0
        self.opened = False

    def copy(self, h):
        c = Lib(h)
        c.scopes, c.bins = list(self.scopes), list(self.bins)
        c.kids = {k: list(v) for k, v in self.kids.items()}
        c.line, c.nh, c.opened = self.line, self.nh, True
        return c

    def add(self, path, t):
        self.kids[tuple(path)].append(t)
        p = path + [len(self.kids[tuple(path)])]
        self.scopes.append((p, t))
        self.kids[tuple(p)] = []
        return p


def nclass(t):
    return "DU" if t.startswith("DU") else t if t in NPAR else "X"


def nname(g):
    return g.r.choice(["a", "b", "a b", "top", "é", "日本", "x" * 200, "", "\\esc ", "a[1]", "%s", "%n"]) if g.r.random() < .4 \
        else g.name()


def nsrc(g, d):
    """source information that no other scope has"""
    d.line += 1
    k = g.r.random()
    if k < .1:
        return None
    return [None if k < .25 else g.r.choice(g.files + ["é.sv"]), d.line * 10 + g.r.randrange(10), g.r.choice([0, 0, 1, 77])]


def nmk(g, d, par=None, t=None):
    r = g.r
    if par is None:
        cands = [(p, k) for p, k in d.scopes if NPAR[nclass(k)]]
        cands += [c for c in cands if c[1] in ("CG", "CI", "INST")] * 3
        par, k = r.choice(cands[-6:] if r.random() < .6 else cands)
        t = r.choice(NPAR[nclass(k)])
    if t == "DU":
        t = r.choice(["DU", "DU", "DU2", "DU3", "DU4", "DU5"])
    if t == "X":
        t = r.choice(OTHERS)
    w = r.choice([0, 1, 1, 2, 10, 100, 2 ** 31 - 1])
    op = dict(op="nmk", h=d.h, path=par, t=t, n=nname(g), w=w, src=nsrc(g, d), lang=r.choice(list(native.LANGS)),
              how=r.choice(["oo", "oo", "oo", "c", "scope"]) if t not in ("CG", "CI", "CP") or r.random() < .2 else "oo",
              flags=r.sample(list(native.FLAGS), r.choice([0, 1, 2, 3])))
    if t == "INST":
        dus = [p for p, k in d.scopes if k.startswith("DU")]
        if not dus:
            return nmk(g, d, [], "DU")
        op["du"] = r.choice(dus)
    if t == "TOG":
        op.update(src=None, w=0, canon=r.choice([None, "c", "top.c", "é"]),
                  tog=[r.choice(list(native.METRICS)), r.choice(list(native.TTYPES)), r.choice(list(native.DIRS))])
    if t == "CR":
        n = d.kids[tuple(par)].count("CP")
        if not n:
            return nmk(g, d, par, "CP")
        op["pts"] = [r.randint(1, n) for _ in range(r.randint(1, 3))]
    if t in ("INST", "TOG", "CG") and r.random() < .15 or d.opened:
        op["fresh"] = True
    d.add(par, t)
    return op


def nbin(g, d):
    r = g.r
    if r.random() < .8:
        cands = [p for p, t in d.scopes if t in ("CP", "CR")]
    else:
        cands = [p for p, t in d.scopes if p]
    if not cands:
        cgs = [p for p, t in d.scopes if t in ("CG", "CI")]
        return nmk(g, d, cgs[-1], "CP") if cgs else nmk(g, d, [], "CG")
    p = r.choice(cands)
    n = sum(1 for q in d.bins if q[0] == p)
    d.bins.append((p, n + 1))
    return dict(op="nbin", h=d.h, path=p, n=nname(g), k=r.choice(list(native.KINDS)),
                c=r.choice([0, 1, 2, 5, 99, 10 ** 6, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 7, 2 ** 53 + 1,
                            2 ** 63, 2 ** 64 - 1]), how=r.choice(["bin", "bin", "next", "c"]),
                wide=r.random() < .3, goal=r.choice([0, 1, 5, 100]), bw=r.choice([0, 1, 2]),
                limit=r.choice([0, 0, 3]), dflt=r.random() < .5, src=nsrc(g, d), fresh=d.opened)


def nprop(g, d, sw=False):
    r = g.r
    cands = d.scopes
    if sw:                              # switches: the scopes that have most of them
        cands = [s for s in d.scopes if s[1] in ("CG", "CI")] * 2 + [s for s in d.scopes if s[1] in ("CP", "CR")] or cands
    p, t = r.choice(cands)
    ks = native.keys_of("ROOT" if not p else t)
    k = r.choice([k for k in ks if k in native.BOOLS] or ks) if sw else r.choice(ks)
    v = r.choice(TEXTS) if native.PROPS[k][0] else r.choice([0, 1]) if k in native.BOOLS else \
        r.choice([0, 1, 2, 64, 100, 2 ** 31 - 1])
    return dict(op="nset", h=d.h, path=p, k=k, v=v, how=r.choice(["oo", "oo", "c", "prop"]), null=r.random() < .5,
                fresh=d.opened or r.random() < .1)


def ntd(g):
    r = g.r
    vals = {"toolcategory": hval(g, "toolcategory"), "date": hval(g, "date")}
    for k in native.TD:
        if k not in vals and r.random() < .7:
            vals[k] = r.choice([0, 1]) if k == "compulsory" else hval(g, k)
    return vals


def nop(g, d, others):
    """an operation on a database"""
    r = g.r
    k = r.random()
    if k < .28:
        return nmk(g, d)
    if k < .52:
        return nbin(g, d)
    if k < .66:
        return nprop(g, d)
    if k < .69 and d.bins:
        p, i = r.choice(d.bins)
        return dict(op="nbset", h=d.h, path=p, i=i, k=r.choice(list(native.BINPROPS)), v=r.choice([0, 1, 7, 100]),
                    how=r.choice(["c", "oo", "idx"]), fresh=d.opened)
    if k < .74:
        d.nh += 1
        return dict(op="nhist", fresh=r.random() < .3, h=d.h, par=r.choice([0, r.randint(0, d.nh - 1)]), log=r.choice(TEXTS + ["l%d" % d.nh] * 4),
                    phys=r.choice([None, "p.ucis"] + TEXTS), kind=r.choice([1, 1, 2, -1]), how=r.choice(["c", "oo"]))
    if k < .81 and d.nh:
        return dict(op="nhset", h=d.h, node=r.randint(1, d.nh), status=r.choice(list(native.STATUS)), vals=ntd(g),
                    how=r.choice(["oo", "c", "oo", "status"]), fresh=r.random() < .3)
    if k < .84:
        return dict(op="nhiter", h=d.h, kind=r.choice([0, 0, 1, 2, -1]), how=r.choice(["list", "iter"]))
    if k < .89:
        return dict(op="nfh", h=d.h, n=r.choice(g.files + ["é.sv", "/a/b c.sv"]), wd=r.choice([None, "/w", "", "é"]),
                    how=r.choice(["c", "oo"]))
    qs = []
    for x in [d] + others:
        for _ in range(r.choice([0, 1, 1, 2])):
            p, t = r.choice([s for s in x.scopes if x.kids[tuple(s[0])]] or x.scopes)
            ts = sorted(set(x.kids[tuple(p)]))
            mask = r.sample(list(native.TYPES), r.choice([1, 2, 4])) + (r.sample(ts, r.randint(1, len(ts))) if ts else [])
            qs.append(dict(h=x.h, path=p, mask=sorted(set(mask)) if r.random() < .8 else list(native.TYPES),
                           fresh=r.random() < .3))
    if not qs:
        return nmk(g, d)
    return dict(op="niter", qs=qs)


REFUSE = {"nmk", "nbin", "nhist", "nfh", "nwrite", "nhset"}


def s_native(g):
    """databases of the library back end: created, written, opened, iterated over"""
    r = g.r
    ops, dbs, files, last = [], [], {}, 0
    for _ in range(r.choice([1, 1, 2])):
        last += 1
        ops.append(dict(op="nnew", how=r.choice(["factory", "fmt"])))
        dbs.append(Lib(last))
    for i in range(r.choice([20, 30, 45])):
        d = r.choice(dbs)
        k = r.random()
        if k < .06:
            f = r.choice(["f1", "f2", "/x/é.ucis"])
            s = r.choice([p for p, t in d.scopes if p] or [None]) if r.random() < .4 else None
            ops.append(dict(op="nwrite", h=d.h, f=f, scope=s, recurse=r.random() < .7,
                            covertype=r.choice([-1, -1, 1, 0x20]), how=r.choice(["c", "oo", "dflt"])))
            files[f] = d.copy(0)
        elif k < .1 and last < 6:
            f = r.choice(["f1", "f2", "/x/é.ucis", "none"] + list(files) * 2)
            last += 1
            ops.append(dict(op="nopen", f=f, how=r.choice(["factory", "fmt"])))
            if f in files:
                dbs.append(files[f].copy(last))
        elif k < .12 and len(dbs) > 1:
            ops.append(dict(op="nclose", h=d.h, how=r.choice(["c", "oo"])))
            dbs.remove(d)
        elif k < .18:
            # what is refused is not there
            keep = d.copy(0)
            keep.opened = d.opened
            op = nop(g, d, [])
            if op["op"] in REFUSE:
                op = dict(op, refuse=True)
                if op.get("how") == "status":
                    op["how"] = "oo"
                if op.get("src"):
                    op["src"] = [None] + op["src"][1:]
                d.scopes, d.kids, d.bins, d.nh = keep.scopes, keep.kids, keep.bins, keep.nh
            ops.append(op)
        elif k < .22:
            ops += [nprop(g, d, r.random() < .8) for _ in range(r.randint(3, 8))]
        else:
            ops.append(nop(g, d, [x for x in dbs if x is not d]))
    return ops


SUITES = {
    # name: (generator, options of G, record properties: always, never, or how often)
    "merge": (s_merge, {}, .4),
    "mergeiso": (s_mergeiso, {}, True),
    "report": (s_report, {}, .4),
    "mono": (s_mono, {}, .4),
    "big": (s_big, {}, False),
    "json": (s_json, {"ctrl": True}, .4),
    "text": (s_text, {"ws": "end"}, .4),
    "xread": (s_xread, {"huge": False}, .4),
    "xbad": (s_xbad, {"huge": False}, False),
    "rt": (s_rt, {"ctrl": True}, .4),
    "xwrite": (s_xwrite, {"ctrl": True}, .4),
    "histrt": (s_histrt, {}, .4),
    "yread": (s_yread, {}, .4),
    "ybad": (s_ybad, {}, False),
    "mem": (s_mem, {"ctrl": True}, .4),
    "hits": (s_hits, {}, True),
    "props": (s_props, {}, True),
    "attrs": (s_attrs, {}, "db"),
    "hist": (s_hist, {}, .4),
    "cliwrite": (s_cliwrite, {"huge": False}, .4),
    "clireport": (s_clireport, {"ws": "end", "huge": False}, .4),
    "clibad": (s_clibad, {"huge": False}, False),
    "fmts": (s_fmts, {"huge": False, "ws": False}, .4),
    "native": (s_native, {"huge": False}, True),
    "iso": (s_iso, {"huge": False, "ws": "end"}, True),
}


def scenarios(suite, seed, n, first=0):
    gen, kw, props = SUITES[suite]
    out = []
    for i in range(first, first + n):
        g = G("%s/%s/%d" % (suite, seed, i), **dict(kw, names="plain") if i % 5 == 0 else kw)
        ops = gen(g)
        out.append(dict(id="%s-%s-%d" % (suite, seed, i), props=g.r.random() < props if isinstance(props, float) else props, ops=ops))
    return out


if __name__ == "__main__":
    import sys
    for s in scenarios(sys.argv[1], sys.argv[2], int(sys.argv[3])):
        print(json.dumps(s))
