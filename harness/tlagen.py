"""Programs from behaviours of the specification: the operation sequences that
TLC prints (module MC with Record = TRUE), turned into scenarios."""
import json

import gen
import xmlio


def nat(d):
    return sum(x * 10000 ** i for i, x in enumerate(d))


def seq(x):
    return x if isinstance(x, list) else [x[k] for k in sorted(x, key=int)]


def tree_steps(db):
    """the creation of a database, in order"""
    steps = []

    def walk(nd, path):
        du = {}
        for j, k in enumerate(nd["kids"]):
            p = path + [j + 1]
            op = dict(op="mk", path=path, t=k["t"], n=k["n"], w=nat(k["w"]))
            if k["t"] == "DU":
                du[k["n"]] = p
            if k["t"] == "INST":
                op["du"] = du[k["du"]]
            if k["t"] == "CR":
                op["pts"] = list(k["pix"])
            steps.append(op)
            for b in k["bins"]:
                steps.append(dict(op="bin", path=p, n=b["n"], k=b["k"], c=nat(b["c"]), al=nat(b["al"])))
            walk(k, p)
    walk(db, [])
    return steps


def yaml_py(doc):
    def item(p, cross):
        d = dict(n=p["n"], al=nat(p["al"]), bins=[dict(n=b["n"], k=b["k"], c=nat(b["c"])) for b in p["bins"]])
        if cross:
            d["pts"] = list(p["pts"])
        return d
    return [dict(n=t["n"], w=nat(t["w"]),
                 insts=[dict(n=i["n"], cps=[item(p, False) for p in i["cps"]],
                             crs=[item(p, True) for p in i["crs"]]) for i in t["insts"]]) for t in doc]


def xml_py(doc):
    def item(p, cross):
        d = dict(n=p["n"], w=nat(p["w"]), al=nat(p["al"]),
                 bins=[dict(n=b["n"], k=b["k"], c=nat(b["c"])) for b in p["bins"]])
        if cross:
            d["pts"] = list(p["pts"])
        return d
    return [dict(n=i["n"], mod=i["mod"],
                 cgs=[dict(w=nat(c["w"]),
                           cis=[dict(n=x["n"], ty=x["ty"], w=nat(x["w"]), cps=[item(p, False) for p in x["cps"]],
                                     crs=[item(p, True) for p in x["crs"]]) for x in c["cis"]])
                      for c in i["cgs"]]) for i in doc]


HOW = {"mk": ["oo", "oo", "c", "scope"], "bin": ["bin", "next", "c"], "set": ["oo", "c", "prop"]}


def native(ops, g):
    """the same operations, on databases of the library back end"""
    r, out, line = g.r, [], 0
    for op in ops:
        for x in [dict(s, h=op["h"]) for s in op["steps"]] if op["op"] == "build" else [op]:
            k = x["op"]
            x = dict(x, op="n" + k)
            if k == "new":
                x["how"] = r.choice(["factory", "fmt"])
            elif k in HOW:
                x.update(how=r.choice(HOW[k]), fresh=r.random() < .2)
                if k in ("mk", "bin"):
                    line += 1
                    x["src"] = r.choice([None, [r.choice(["a.sv", "b.sv"]), line * 10, 0]])
                if k == "bin":
                    x["wide"] = r.random() < .5
            elif k == "hist":
                pass
            elif k == "hset":
                (f, v), = x.pop("vals")
                vals = gen.ntd(g)
                x.update(status="OK", vals=vals, fresh=r.random() < .3, how=r.choice(["oo", "c"]))
                if f == "status":
                    x.update(status=list(gen.native.STATUS)[v - 1], how=r.choice(["status", "oo", "c"]))
            elif k in ("nwrite", "nopen"):
                x["op"] = k
            else:
                raise ValueError(k)
            out.append(x)
    return out


START = dict(op="rgstart", names=["fa"])


def convert(prog, sid, props=False, nat=False):
    g = gen.G("tla/" + sid)
    r = g.r
    ops = []
    hs = [0]                # handle of the model -> handle of the implementation
    used = [0]

    def new(op, known=True):
        used[0] += 1
        if known:
            hs.append(used[0])
        ops.append(op)

    for x in prog:
        k = x["op"]
        h = hs[x["h"]] if "h" in x else None
        if k == "load":
            for db in x["dbs"]:
                new(dict(op="new", how=r.choice(["mem", "xml", "yaml"])))
                ops.append(dict(op="build", h=used[0], steps=tree_steps(db)))
        elif k == "new":
            new(dict(op="new", how=r.choice(["mem", "xml", "yaml"])))
        elif k == "inst":
            ops.append(dict(op="mk", h=h, path=[], t="DU", n="d" + x["n"]))
            ops.append(dict(op="mk", h=h, path=[], t="INST", n=x["n"], dulast=True))
        elif k == "scope":
            ops.append(dict(op="mk", h=h, tpath=x["path"], t=x["t"], n=x["n"], w=x["w"],
                            how=r.choice(["oo", "oo", "c", "scope"])))
        elif k == "cross":
            ops.append(dict(op="mk", h=h, tpath=x["path"], t="CR", n=x["n"], w=x["w"], pts=[x["i"], x["j"]]))
        elif k == "bin":
            ops.append(dict(op="bin", h=h, tpath=x["path"], n=x["n"], k=x["k"], c=x["c"], al=x["al"],
                            how=r.choice(["bin", "bin", "c", "next"])))
        elif k == "hit":
            ops.append(dict(op="hit", h=h, tpath=x["path"], tbin=x["b"], amt=x["amt"]))
        elif k == "setw":
            ops.append(dict(op="set", h=h, tpath=x["path"], k="weight", v=x["w"], how=r.choice(["oo", "c"])))
        elif k == "item":
            ops.append(dict(op="item", h=h, tpath=x["path"], n=x["n"], how=r.choice(["oo", "c"])))
        elif k == "setitem":
            ops.append(dict(op="set", h=h, tpath=x["path"], k="item", ix=x["i"], v=x["v"], how=r.choice(["oo", "c", "item"])))
        elif k == "record":
            ops.append(dict(op="record", h=h, n=x["n"], f="a.sv", line=1, item=r.randint(0, 3), how=r.choice(["fh", "file"])))
        elif k == "hist":
            ops.append(dict(op="hist", h=h, log=x["n"], phys=x["n"], kind=int(x["kind"]),
                            how=r.choice(["oo", "c"])))
        elif k == "hset":
            v = int(x["v"]) if x["k"] == "status" else x["v"][2:]
            ops.append(dict(op="hset", h=h, node=x["node"], vals=[[x["k"], v]]))
        elif k == "merge":
            new(dict(op="merge", srcs=[hs[i] for i in seq(x["srcs"])], how=r.choice(["new", "m"])))
        elif k in ("report", "json"):
            ops.append(dict(op=k, of=h))
        elif k == "text":
            ops.append(dict(op=k, of=h, det=r.random() < .5))
        elif k == "xwrite":
            ops.append(dict(op="xwrite", of=h, f=x["f"], how=r.choice(["factory", "new", "w"])))
        elif k == "xmlread":
            new(dict(op="xread", f=x["f"], how=r.choice(gen.XREAD if x["schema"] or not x["ok"]
                                                        else ["new", "news", "r", "rs"])), x["ok"])
        elif k == "yamlread":
            new(dict(op="yread", f=x["f"], how=r.choice(gen.YREAD)), x["ok"])
        elif k == "nwrite":
            ops.append(dict(op="nwrite", h=h, f=x["f"], how=r.choice(["c", "oo", "dflt"])))
        elif k == "nopen":
            new(dict(op="nopen", f=x["f"], how=r.choice(["factory", "fmt"])), x["ok"])
        elif k == "putyaml":
            ops.append(gen.yaml_file(g, x["f"], yaml_py(x["doc"])))
        elif k == "putxml":
            ops.append(gen.xml_file(g, x["f"], xml_py(x["doc"]), gen.xml_hist(g, x["nh"])))
        elif k == "putother":
            ops.append(dict(op="file", f=x["f"], text="no document", val=dict(gen.BAD, k="other")))
        elif k == "cli":
            c = x["c"]
            ops.append(gen.cli(g, c["cmd"], seq(c["ins"]), c["out"] or None, c["infmt"], c["outfmt"]))
        elif k == "fmt":
            if ops[:1] != [START]:
                ops.insert(0, START)
            ops.append(dict(op="fmt", kind=x["kind"], n=x["n"], to=x["to"], d="The format " + x["n"], fl=6,
                            how=r.choice(["inst", "kept", "pos"]), **{"as": x["as"]}))
        else:
            raise ValueError(k)
    if START in ops:                    # (the harness uses formats by name as well)
        for o in ops:
            if o["op"] == "new":
                o["how"] = "mem"
    return dict(id=sid, props=props, ops=native(ops, g) if nat else ops)


def programs(lines):
    for l in lines:
        if l.startswith('"PROG '):
            yield json.loads(json.loads(l)[5:])
