"""UCIS XML documents: independent parser of what the library writes, and a
renderer of documents for it to read, in any of their forms.  A document is the
value that Cov.tla describes."""
import gzip
import io
from xml.sax.saxutils import quoteattr, escape

from lxml import etree

import enc

# history-node fields: (attribute, key, kind)
HATTR = [("simtime", "simtime", "num"), ("timeunit", "timeunit", "str"),
         ("runCwd", "runcwd", "str"), ("cpuTime", "cputime", "num"),
         ("seed", "seed", "str"), ("cmd", "cmd", "str"), ("args", "args", "str"),
         ("compulsory", "compulsory", "str"), ("date", "date", "date"),
         ("userName", "user", "str"), ("cost", "cost", "num"),
         ("toolCategory", "toolcategory", "str"), ("vendorId", "vendorid", "str"),
         ("vendorTool", "vendortool", "str"),
         ("vendorToolVersion", "vendortoolversion", "str"),
         ("sameTests", "sametests", "num"), ("comment", "comment", "str")]

KEYS = ["status", "passed"] + [k for _, k, _ in HATTR]


def local(tag):
    return tag.rsplit("}", 1)[-1] if isinstance(tag, str) else None


def kids(e, n):
    return [c for c in e if local(c.tag) == n]


def opt(e, n, d):
    o = kids(e, "options")
    return enc.nat(int(o[0].get(n, d))) if o else enc.nat(d)


def kind_of(t):
    return {"ignore": "ign", "illegal": "ill"}.get(t, "bin")


def p_bin(b):
    c = [x for x in b.iter() if local(x.tag) == "contents"][0]
    return {"n": enc.name(b.get("name")), "k": kind_of(b.get("type", "default")),
            "c": enc.nat(int(c.get("coverageCount")))}


def p_cp(e):
    return {"n": enc.name(e.get("name")), "w": opt(e, "weight", 1), "al": opt(e, "at_least", 1),
            "bins": [p_bin(b) for b in kids(e, "coverpointBin")]}


def p_cr(e):
    return {"n": enc.name(e.get("name")), "w": opt(e, "weight", 1), "al": opt(e, "at_least", 1),
            "pts": [enc.name("".join(x.itertext())) for x in kids(e, "crossExpr")],
            "bins": [p_bin(b) for b in kids(e, "crossBin")]}


def p_ci(e):
    cid = kids(e, "cgId")
    return {"n": enc.name(e.get("name")), "ty": enc.name(cid[0].get("cgName") if cid else "default"),
            "w": opt(e, "weight", 1),
            "cps": [p_cp(x) for x in kids(e, "coverpoint")],
            "crs": [p_cr(x) for x in kids(e, "cross")]}


def p_inst(e):
    return {"n": enc.name(e.get("name")), "mod": enc.name(e.get("moduleName", "default")),
            "cgs": [{"w": enc.nat(int(c.get("weight", 1))), "cis": [p_ci(x) for x in kids(c, "cgInstance")]}
                    for c in kids(e, "covergroupCoverage")]}


def hval(kind, v):
    if kind == "num":
        return "n:-1.0" if v is None else enc.num(v)
    if kind == "date":
        d = v.strip()[:19]
        return "s:" + d.replace("-", "").replace(":", "").replace("T", "")
    return enc.text(v)


def p_hist(e):
    ok = e.get("testStatus", "").strip() in ("true", "1")
    f = [{"k": "status", "v": "1" if ok else "3"}, {"k": "passed", "v": "1" if ok else "0"}]
    f += [{"k": k, "v": hval(t, e.get(a))} for a, k, t in HATTR]
    kd = e.get("kind")
    return {"par": 0, "log": enc.text(e.get("logicalName")), "phys": enc.text(e.get("physicalName")),
            "kind": "none" if kd is None else kd if kd in ("-1", "0", "1", "2") else "s:" + enc.name(kd), "f": f}


def parse(data):
    """(value, source files) of the bytes of a document"""
    if data[:2] == b"\x1f\x8b":
        data = gzip.decompress(data)
    root = etree.parse(io.BytesIO(data)).getroot()
    if local(root.tag) != "UCIS":
        raise ValueError("not UCIS")
    val = {"k": "xml", "doc": [p_inst(x) for x in kids(root, "instanceCoverages")],
           "hist": [p_hist(x) for x in kids(root, "historyNodes")], "src": []}
    files = [{"n": enc.file(x.get("fileName")), "id": x.get("id") or ""} for x in kids(root, "sourceFiles")]
    ids = [x.get("historyNodeId") or "" for x in kids(root, "historyNodes")]
    return val, files, ids


_schema = {}


def valid(data, xsd):
    """validity, with a schema object of our own, once names are unqualified"""
    if xsd not in _schema:
        _schema[xsd] = etree.XMLSchema(etree.parse(xsd))
    try:
        doc = etree.parse(io.BytesIO(data))
        for e in doc.getroot().iter():
            if isinstance(e.tag, str):
                e.tag = local(e.tag)
        return bool(_schema[xsd].validate(doc))
    except Exception:
        return False


# ------------------------------------------------------------------ rendering

class R:
    def __init__(self, style, rng):
        self.st, self.rng, self.out, self.d = style, rng, [], 0
        self.px = "ucis:" if style.get("ns") == "prefix" else ""

    def attrs(self, a):
        items = [(k, v) for k, v in a if v is not None]
        if self.st.get("shuffle"):
            self.rng.shuffle(items)
        return "".join(" %s=%s" % (k, quoteattr(str(v), {"\n": "&#10;", "\t": "&#9;", "\r": "&#13;"}))
                       for k, v in items)

    def nl(self):
        if self.st.get("pretty", True):
            self.out.append("\n" + "  " * self.d)
        if self.st.get("comments") and self.rng.random() < .15:
            self.out.append("<!-- c < & -->")

    def open(self, t, a=()):
        self.nl()
        self.out.append("<%s%s%s>" % (self.px, t, self.attrs(a)))
        self.d += 1

    def close(self, t):
        self.d -= 1
        self.nl()
        self.out.append("</%s%s>" % (self.px, t))

    def leaf(self, t, a=(), text=None):
        self.nl()
        if text is None:
            self.out.append("<%s%s%s/>" % (self.px, t, self.attrs(a)))
        else:
            k = self.rng.randint(0, len(text)) if self.st.get("comments") else 0
            text = escape(text[:k]) + ("<!-- c -->" if k else "") + escape(text[k:])
            self.out.append("<%s%s%s>%s</%s%s>" % (self.px, t, self.attrs(a), text, self.px, t))


def num_form(r, n):
    """a number, in one of the spellings that the schema allows"""
    s = str(n)
    if r.st.get("odd_numbers"):
        return r.rng.choice([s, " " + s, s + " ", "+" + s, "00" + s])
    return s


def value_form(r, v, t):
    """a value of a type whose blanks do not count"""
    if v is not None and t in ("num", "bool") and r.st.get("odd_numbers"):
        return r.rng.choice(["", " ", "\n", "\t"]) + str(v) + r.rng.choice(["", " ", "\n "])
    return v


def others(r, rng, ids, key, inst):
    """coverage of other kinds than covergroups, which is not read"""
    name = rng.choice(["x", inst["n"]] + [ci["n"] for cg in inst["cgs"] for ci in cg["cis"]])

    def bin_(t):
        r.open(t, [("weight", "3")] if rng.random() < .3 else [])
        r.leaf("contents", [("coverageCount", rng.choice([0, 5])), ("nameComponent", name)])
        r.close(t)
    if rng.random() < .4:
        r.open("toggleCoverage")
        r.open("toggleObject", [("name", name), ("key", key())])
        r.leaf("dimension", [("left", "1"), ("right", "0"), ("downto", "true")])
        ids("id")
        r.open("toggleBit", [("name", name), ("key", key())])
        r.leaf("index", (), "0")
        r.open("toggle", [("from", "0"), ("to", "1")])
        bin_("bin")
        r.close("toggle")
        r.close("toggleBit")
        r.close("toggleObject")
        r.leaf("metricMode", [("metricMode", "m")])
        r.close("toggleCoverage")
    if rng.random() < .4:
        r.open("blockCoverage", [("weight", "2")])
        r.open("statement", [("weight", "4")])
        ids("id")
        bin_("bin")
        r.close("statement")
        r.close("blockCoverage")
    if rng.random() < .3:
        r.open("conditionCoverage")
        r.open("expr", [("name", name), ("key", key()), ("exprString", "a && b"), ("index", "0"), ("width", "1")])
        ids("id")
        r.leaf("subExpr", (), "a")
        bin_("bin")
        r.close("expr")
        r.close("conditionCoverage")
    if rng.random() < .3:
        r.open("branchCoverage")
        r.open("statement", [("statementType", "if")])
        ids("id")
        r.open("branch")
        ids("id")
        bin_("branchBin")
        r.close("branch")
        r.close("statement")
        r.close("branchCoverage")
    if rng.random() < .3:
        r.open("fsmCoverage")
        r.open("fsm", [("name", name)])
        r.open("state", [("stateName", name)])
        bin_("stateBin")
        r.close("state")
        r.close("fsm")
        r.close("fsmCoverage")
    if rng.random() < .3:
        r.open("assertionCoverage")
        r.open("assertion", [("name", name), ("assertionKind", "cover")])
        bin_("coverBin")
        r.close("assertion")
        r.close("assertionCoverage")


def render(doc, hist, style, rng):
    """doc and hist hold plain names and numbers"""
    r = R(style, rng)
    omit = style.get("omit")
    extra = style.get("extra")

    def o(v, d):
        return None if (omit and v == d) else num_form(r, v)

    def user():
        if extra and rng.random() < .3:
            r.leaf("userAttr", [("key", "k"), ("type", "str"), ("len", "1")], "x < y")

    noise = style.get("noise")          # what says nothing about the coverage of covergroups
    nfiles = style.get("nfiles", 1)
    fids = rng.sample(range(1, 40), nfiles) if noise else list(range(1, nfiles + 1))

    def key():
        return rng.choice(["0", "1", "2", "10", "k", "", "a b"]) if noise else "0"

    def pos():
        if not noise:
            return [("file", "1"), ("line", "1"), ("inlineCount", "1")]
        return [("file", rng.choice(fids or [1])), ("line", rng.choice([1, 7, 123456])), ("inlineCount", rng.choice([1, 2, 30]))]

    def ids(t):
        r.leaf(t, pos())

    if style.get("decl"):
        r.out.append('<?xml version="1.0"%s?>' % (' encoding="UTF-8"' if style["decl"] == "enc" else ""))
    ns = {"prefix": ' xmlns:ucis="http://www.w3.org/2001/XMLSchema-instance"',
          "default": ' xmlns="http://www.w3.org/2001/XMLSchema-instance"',
          "other": ' xmlns="UCIS"'}.get(style.get("ns"), "")
    r.out.append('<%sUCIS%s writtenBy="me" writtenTime="2020-01-02T03:04:05" ucisVersion="1.0">' % (r.px, ns))
    r.d = 1
    for i in range(nfiles):
        r.leaf("sourceFiles", [("fileName", "f%d.sv" % i), ("id", fids[i])])
    hids = rng.sample(range(0, 3 * len(hist) + 12), len(hist)) if noise and not style.get("hids") else range(len(hist))
    for i, h in enumerate(hist):
        a = [("historyNodeId", hids[i]), ("logicalName", h["log"]), ("physicalName", h.get("phys")),
             ("kind", h.get("kind")), ("testStatus", value_form(r, h["ok"], "bool"))]
        a += [(at, value_form(r, h.get(k), t)) for at, k, t in HATTR]
        a += [("ucisVersion", "1.0")]
        r.leaf("historyNodes", a)
    for inst in doc:
        a = [("name", inst["n"]), ("key", key()), ("moduleName", inst["mod"])]
        if extra and rng.random() < .3:
            a += [("instanceId", "4"), ("alias", "al")]
        r.open("instanceCoverages", a)
        if extra and rng.random() < .3:
            r.open("designParameter")
            r.leaf("name", (), "P")
            r.leaf("value", (), "1")
            r.close("designParameter")
        ids("id")
        if noise and rng.random() < .5:
            others(r, rng, ids, key, inst)
        for cg in inst["cgs"]:
            a = [("weight", o(cg["w"], 1))]
            if extra and rng.random() < .3:
                a += [("metricMode", "m")]
            r.open("covergroupCoverage", a)
            for ci in cg["cis"]:
                r.open("cgInstance", [("name", ci["n"]), ("key", key())] +
                       ([("excluded", "false"), ("alias", "z")] if extra and rng.random() < .3 else []))
                r.leaf("options", [("weight", o(ci["w"], 1)), ("auto_bin_max", None if omit else "64"),
                                   ("goal", "90" if extra and rng.random() < .3 else None)])
                r.open("cgId", [("cgName", ci["ty"]), ("moduleName", rng.choice(["m", ci["n"], ci["ty"], inst["mod"] or "m", ""]) if noise else "m")])
                ids("cginstSourceId")
                ids("cgSourceId")
                r.close("cgId")
                if extra and rng.random() < .3:
                    r.open("cgParms")
                    r.leaf("name", (), "P")
                    r.leaf("value", (), "1")
                    r.close("cgParms")
                for cp in ci["cps"]:
                    r.open("coverpoint", [("name", cp["n"]), ("key", key()),
                                          ("exprString", "e" if extra and rng.random() < .3 else None)])
                    r.leaf("options", [("weight", o(cp["w"], 1)), ("at_least", o(cp["al"], 1)),
                                       ("comment", "c" if extra and rng.random() < .3 else None)])
                    for b in cp["bins"]:
                        t = {"bin": rng.choice(["bins", "default"]) if style.get("kinds") else "bins",
                             "ign": "ignore", "ill": "illegal"}[b["k"]]
                        r.open("coverpointBin", [("name", b["n"]), ("type", t), ("key", key()),
                                                 ("alias", b["n"][::-1] if noise and rng.random() < .2 else None)])
                        form = style.get("bins", "range")
                        if form == "mixed":
                            form = rng.choice(["range", "sequence"])
                        if form == "range":
                            r.open("range", [("from", rng.choice([-1, 0, 3, 2 ** 40]) if noise else "-1"), ("to", rng.choice([-1, 5, 9]) if noise else "5")])
                        else:
                            r.open("sequence")
                        if extra and rng.random() < .3:
                            r.open("contents", [("coverageCount", num_form(r, b["c"])), ("nameComponent", "q")])
                            r.leaf("historyNodeId", (), "0")
                            r.close("contents")
                        else:
                            r.leaf("contents", [("coverageCount", num_form(r, b["c"]))])
                        if form == "sequence":
                            for v in range(rng.randint(1, 3)):
                                r.leaf("seqValue", (), str(v))
                        r.close(form)
                        user()
                        r.close("coverpointBin")
                    user()
                    r.close("coverpoint")
                for cr in ci["crs"]:
                    r.open("cross", [("name", cr["n"]), ("key", key())])
                    r.leaf("options", [("weight", o(cr["w"], 1)), ("at_least", o(cr["al"], 1))])
                    for p in cr["pts"]:
                        pad = style.get("odd_numbers") and p == p.strip() != ""
                        r.leaf("crossExpr", (), (" \n %s " % p) if pad else p)
                    for b in cr["bins"]:
                        t = {"bin": "default", "ign": "ignore", "ill": "illegal"}[b["k"]]
                        if omit and t == "default":
                            t = None
                        r.open("crossBin", [("name", b["n"]), ("key", key()), ("type", t)])
                        for v in range(rng.randint(1, 2)):
                            r.leaf("index", (), str(rng.choice([-1, v, 7]) if noise else v))
                        r.leaf("contents", [("coverageCount", num_form(r, b["c"]))])
                        user()
                        r.close("crossBin")
                    r.close("cross")
                user()
                r.close("cgInstance")
            r.close("covergroupCoverage")
        user()
        r.close("instanceCoverages")
    r.d = 0
    r.nl()
    r.out.append("</%sUCIS>" % r.px)
    if style.get("comments"):
        r.out.append("<?pi x?>")
    return "".join(r.out)


def model_bins(bs):
    return [{"n": enc.name(b["n"]), "k": b["k"], "c": enc.nat(b["c"])} for b in bs]


def model_doc(doc):
    return [{"n": enc.name(i["n"]), "mod": enc.name(i["mod"] if i["mod"] is not None else "default"),
             "cgs": [{"w": enc.nat(g["w"]), "cis": [
                 {"n": enc.name(c["n"]), "ty": enc.name(c["ty"]), "w": enc.nat(c["w"]),
                  "cps": [{"n": enc.name(p["n"]), "w": enc.nat(p["w"]), "al": enc.nat(p["al"]),
                           "bins": model_bins(p["bins"])} for p in c["cps"]],
                  "crs": [{"n": enc.name(p["n"]), "w": enc.nat(p["w"]), "al": enc.nat(p["al"]),
                           "pts": [enc.name(x) for x in p["pts"]],
                           "bins": model_bins(p["bins"])} for p in c["crs"]]}
                 for c in g["cis"]]} for g in i["cgs"]]} for i in doc]


def model_hist(hist):
    out = []
    for h in hist:
        ok = h["ok"].strip() in ("true", "1")
        f = [{"k": "status", "v": "1" if ok else "3"}, {"k": "passed", "v": "1" if ok else "0"}]
        f += [{"k": k, "v": hval(t, h.get(k))} for _, k, t in HATTR]
        kd = h.get("kind")
        out.append({"par": 0, "log": enc.text(h["log"]), "phys": enc.text(h.get("phys")),
                    "kind": "none" if kd is None else kd if kd in ("-1", "0", "1", "2") else "s:" + enc.name(kd),
                    "f": f})
    return out


def model_yaml(doc):
    return [{"n": enc.name(g["n"]), "w": enc.nat(g["w"]), "insts": [
        {"n": enc.name(c["n"]),
         "cps": [{"n": enc.name(p["n"]), "al": enc.nat(p["al"]), "bins": model_bins(p["bins"])} for p in c["cps"]],
         "crs": [{"n": enc.name(p["n"]), "al": enc.nat(p["al"]), "pts": [enc.name(x) for x in p["pts"]],
                  "bins": model_bins(p["bins"])} for p in c["crs"]]} for c in g["insts"]]} for g in doc]


def yaml_data(doc, style, rng):
    """the document as plain data, with defaults left out or not"""
    omit = style.get("omit")

    def bins(bs, k):
        return [{"name": b["n"], "count": b["c"]} for b in bs if b["k"] == k]

    def item(p, cross):
        d = {"name": p["n"]}
        if p["al"] != 1 or not omit:
            d["atleast"] = p["al"]
        if cross:
            d["coverpoints"] = list(p["pts"])
            if bins(p["bins"], "bin") or not omit:
                d["bins"] = bins(p["bins"], "bin")
        else:
            d["bins"] = bins(p["bins"], "bin")
            for k, key in (("ign", "ignorebins"), ("ill", "illegalbins")):
                if bins(p["bins"], k) or not omit:
                    d[key] = bins(p["bins"], k)
        return d

    out = []
    for g in doc:
        d = {"name": g["n"]}
        if g["w"] != 1 or not omit:
            d["weight"] = g["w"]
        if g["insts"] or not omit:
            d["instances"] = []
            for c in g["insts"]:
                x = {"name": c["n"]}
                if c["cps"] or not omit:
                    x["coverpoints"] = [item(p, False) for p in c["cps"]]
                if c["crs"] or not omit:
                    x["crosses"] = [item(p, True) for p in c["crs"]]
                d["instances"].append(x)
        if style.get("extra"):
            d["vendor"] = {"x": 1}
        out.append(d)
    cov = {"covergroups": out} if (out or not omit) else {}
    return {"coverage": cov}
