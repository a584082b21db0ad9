"""The library back end: a UCIS C library made for the purpose (nativelib/ucis.c)
stands for the tool's, and what arrives in it is looked at in it, not by way of
the code under test.  Codes and layouts are those of the standard, given here as
numbers."""
import ctypes
import json
import os
import subprocess

import enc
import xmlio

import ucis
from ucis import (ucis_CreateScope, ucis_CreateInstance, ucis_CreateToggle, ucis_CreateNextCover,
                  ucis_CreateHistoryNode, ucis_CreateFileHandle, ucis_SetTestData, ucis_SetIntProperty,
                  ucis_SetStringProperty, ucis_Write, ucis_Close)
from ucis.cover_data import CoverData
from ucis.cover_flags_t import CoverFlagsT
from ucis.cover_type_t import CoverTypeT
from ucis.history_node_kind import HistoryNodeKind
from ucis.int_property import IntProperty
from ucis.scope_type_t import ScopeTypeT
from ucis.source_info import SourceInfo
from ucis.source_t import SourceT
from ucis.str_property import StrProperty
from ucis.test_data import TestData
from ucis.test_status_t import TestStatusT
from ucis.toggle_dir_t import ToggleDirT
from ucis.toggle_metric_t import ToggleMetricT
from ucis.toggle_type_t import ToggleTypeT

try:
    from ucis.lib.LibFactory import LibFactory
    from ucis.lib.db_format_if_lib import DbFormatIfLib
except Exception:                       # operations of the library back end fail
    LibFactory = DbFormatIfLib = None

HERE = os.path.dirname(os.path.abspath(__file__))


class Skip(Exception):
    pass


# the standard's codes, and the library's names for them
TYPES = {"TOG": (0x1, "TOGGLE"), "BRANCH": (0x2, "BRANCH"), "EXPR": (0x4, "EXPR"), "COND": (0x8, "COND"),
         "INST": (0x10, "INSTANCE"), "PROC": (0x20, "PROCESS"), "BLOCK": (0x40, "BLOCK"),
         "FUNC": (0x80, "FUNCTION"), "FORK": (0x100, "FORKJOIN"), "GEN": (0x200, "GENERATE"),
         "CLASS": (0x800, "CLASS"), "CG": (0x1000, "COVERGROUP"), "CI": (0x2000, "COVERINSTANCE"),
         "CP": (0x4000, "COVERPOINT"), "CR": (0x8000, "CROSS"), "COVER": (0x10000, "COVER"),
         "ASSERT": (0x20000, "ASSERT"), "TASK": (0x100000, "TASK"), "FSM": (0x400000, "FSM"),
         "DU": (0x1000000, "DU_MODULE"), "DU2": (0x2000000, "DU_ARCH"), "DU3": (0x4000000, "DU_PACKAGE"),
         "DU4": (0x8000000, "DU_PROGRAM"), "DU5": (0x10000000, "DU_INTERFACE"),
         "COVBLOCK": (0x80000000, "COVBLOCK"), "BINSCOPE": (0x100000000, "CVGBINSCOPE"),
         "ILLSCOPE": (0x200000000, "ILLEGALBINSCOPE"), "IGNSCOPE": (0x400000000, "IGNOREBINSCOPE")}
TNAME = {v[0]: k for k, v in TYPES.items()}
KINDS = {"bin": (0x1, "CVGBIN"), "ign": (0x80000, "IGNOREBIN"), "ill": (0x100000, "ILLEGALBIN"),
         "def": (0x200000, "DEFAULTBIN"), "stm": (0x20, "STMTBIN")}
KNAME = {v[0]: k for k, v in KINDS.items()}
LANGS = {"VHDL": 0, "VLOG": 1, "SV": 2, "SYSTEMC": 3, "PSL_VHDL": 4, "PSL_VLOG": 5, "PSL_SV": 6,
         "PSL_SYSTEMC": 7, "E": 8, "VERA": 9, "NONE": 10, "OTHER": 11}
METRICS = {"NOBINS": 1, "ENUM": 2, "TRANSITION": 3, "_2STOGGLE": 4, "ZTOGGLE": 5, "XTOGGLE": 6}
TTYPES = {"NET": 1, "REG": 2}
DIRS = {"INTERNAL": 1, "IN": 2, "OUT": 3, "INOUT": 4}

# properties: key in the trace -> (is a string, code, name, setter, value if not set)
PROPS = {"goal": (0, 4, "SCOPE_GOAL", "setGoal", "n:100"),
         "atleast": (0, 24, "CVG_ATLEAST", "setAtLeast", "n:1"),
         "autobin": (0, 25, "CVG_AUTOBINMAX", "setAutoBinMax", "n:64"),
         "overlap": (0, 26, "CVG_DETECTOVERLAP", "setDetectOverlap", "n:0"),
         "strobe": (0, 28, "CVG_STROBE", "setStrobe", "n:0"),
         "perinst": (0, 29, "CVG_PERINSTANCE", "setPerInstance", "n:0"),
         "getinst": (0, 30, "CVG_GETINSTCOV", "setGetInstCoverage", "n:0"),
         "mergeinst": (0, 31, "CVG_MERGEINSTANCES", "setMergeInstances", "n:1"),
         "comment": (1, 14, "COMMENT", "setComment", "s:"),
         "weight": (0, 3, "SCOPE_WEIGHT", None, "unset"),
         "limit": (0, 17, "COVER_LIMIT", None, "unset"),
         "branches": (0, 22, "BRANCH_COUNT", None, "unset"),
         "elses": (0, 14, "BRANCH_HAS_ELSE", None, "unset"),
         "uid": (1, 4, "UNIQUE_ID", None, "unset"),
         "generic": (1, 10, "GENERIC", None, "unset")}
BOOLS = {"overlap", "strobe", "perinst", "getinst", "mergeinst"}
BINPROPS = {"goal": (16, "COVER_GOAL"), "limit": (17, "COVER_LIMIT"), "weight": (18, "COVER_WEIGHT")}
TD = ["simtime", "timeunit", "runcwd", "cputime", "seed", "cmd", "args", "compulsory", "date", "user", "cost",
      "toolcategory"]
NUMS = {"simtime", "cputime", "cost", "compulsory"}
STATUS = {"OK": 0, "WARNING": 1, "ERROR": 2, "FATAL": 3, "MISSING": 4, "MERGE_ERROR": 5}
FLAGS = {"INST_ONCE": 0x1, "ENABLED_STMT": 0x2, "ENABLED_BRANCH": 0x4, "ENABLED_COND": 0x8, "ENABLED_EXPR": 0x10,
         "ENABLED_FSM": 0x20, "ENABLED_TOGGLE": 0x40, "SCOPE_UNDER_DU": 0x100}


def compile_to(d):
    so = os.path.join(d, "libvpucis.so")
    subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so, os.path.join(HERE, "nativelib", "ucis.c")],
                   check=True)
    return so


def unhex(x):
    return None if x is None else bytes.fromhex(x).decode("utf-8", "backslashreplace")


class Native:
    """the C library, seen from below"""

    def __init__(self):
        so = os.environ["NATIVE_LIB"]
        self.c = ctypes.CDLL(so)
        self.c.vp_dump.restype = ctypes.c_char_p
        self.c.vp_errors.restype = ctypes.c_char_p
        self.c.vp_written.restype = ctypes.c_char_p
        self.c.vp_reset()
        LibFactory.load_ucis_library(so)

    def dump(self, k):
        return json.loads(self.c.vp_dump(k))

    def opened(self):
        return self.c.vp_opened()

    def errors(self):
        return self.c.vp_errors().decode()

    def written(self):
        return json.loads(self.c.vp_written())

    def fail(self, on):
        self.c.vp_fail(on)


def pentry(k, v):
    return {"k": k, "o": v, "c": v}


def keys_of(t):
    ks = ["goal", "weight", "limit", "branches", "elses", "uid", "generic"]
    if t in ("CG", "CI", "CP", "CR"):
        ks += ["atleast", "autobin", "overlap", "strobe"]
    if t in ("CG", "CI"):
        ks += ["perinst", "getinst", "mergeinst"]
    return ks + ["comment"]


def plist(t, got, lang, flags, tog, duat, closed):
    """the attributes of a scope, from [key -> value]"""
    p = [pentry(k, got.get(k, PROPS[k][4])) for k in keys_of(t)]
    p += [pentry("lang", "n:%d" % lang), pentry("flags", "n:%d" % flags), pentry("toggle", tog),
          pentry("duat", duat), pentry("closed", "n:%d" % closed)]
    return p


def togs(canon, metric, ttype, dr):
    return "%s/%d/%d/%d" % (enc.text(canon), metric, ttype, dr)


def srcs(n):
    return "" if n["file"] is None else enc.file(unhex(n["file"])), "%d:%d" % (n["line"], n["token"])


def pval(str_, v):
    return enc.text(unhex(v)) if str_ else "n:%d" % v


BYCODE = {(v[0], v[1]): k for k, v in PROPS.items()}


def node(n, tree_at):
    t = "ROOT" if n["root"] else TNAME.get(n["type"], "X%x" % n["type"])
    src, loc = srcs(n)
    got, stray = {}, []
    for _, s, code, v in n["props"]:
        k = BYCODE.get((s, code))
        if k in keys_of(t):
            got[k] = pval(s, v)
        else:
            stray.append("%d.%d=%s" % (s, code, v))
    nd = {"t": t, "n": "" if t == "ROOT" else enc.name(unhex(n["name"])), "w": [] if t == "ROOT" else enc.nat(n["weight"]),
          "du": "" if t != "INST" else "\\N" if n["du"] is None else enc.name(unhex(n["du"])),
          "src": src, "loc": loc, "pts": [], "pix": [],
          "p": plist(t, got, n["source"], n["flags"] & 0xffffffff,
                     togs(unhex(n["canon"]), n["metric"], n["ttype"], n["dir"]),
                     ",".join(map(str, n["duat"])), n["closed"]),
          "bins": [], "bx": [], "kids": []}
    nd["p"].append(pentry("stray", " ".join(sorted(stray))))
    for b in n["bins"]:
        nd["bins"].append({"n": enc.name(unhex(b["name"])), "k": KNAME.get(b["type"], "X%x" % b["type"]),
                           "c": enc.nat(b["count"]), "al": enc.nat(1)})
        s, l = srcs(b)
        nd["bx"].append({"s": "%s|%s" % (s, l) if b["hassrc"] else "none",
                         "x": "goal=%d weight=%d limit=%d bitlen=%d flags=%d set=%s" % (
                             b["goal"], b["weight"], b["limit"], b["bitlen"], b["flags"] & 0xffffffff,
                             ",".join("%d:%s" % (c, v) for _, s, c, v in sorted(b["props"], key=lambda q: q[2])))})
    return nd


def convert(n, top, path):
    nd = node(n, top)
    if n["pts"]:
        par = top
        for i in path[:-1]:
            par = par["kids"][i - 1]
        cps = [j for j, k in enumerate(par["kids"]) if k["type"] == 0x4000]
        for p in n["pts"]:
            x = top
            for i in p:
                x = x["kids"][i - 1]
            nd["pts"].append(enc.name(unhex(x["name"])))
            nd["pix"].append(1 + cps.index(p[-1] - 1) if p[:-1] == path[:-1] and p[-1] - 1 in cps else 0)
    nd["kids"] = [convert(k, top, path + [i + 1]) for i, k in enumerate(n["kids"])]
    return nd


def field(k, v):
    if k in NUMS:
        return {"k": k, "v": enc.num(float(v))}
    return {"k": k, "v": enc.text(v)}


def fields(h):
    td = h["td"]
    f = [{"k": "status", "v": str(td["status"])}]
    f += [field(k, td[k] if k in NUMS else unhex(td[k])) for k in TD]
    f.append({"k": "stray", "v": " ".join(sorted("%d.%d=%s" % (s, c, v) for _, s, c, v in h["props"]
                                                 if (s, c) != (0, 19)))})
    return f


NOFIELDS = fields({"td": dict({k: 0 if k in NUMS else None for k in TD}, status=0), "props": []})


class LibDb:
    def __init__(self, nat, k, obj):
        self.nat, self.k, self.obj, self.closed = nat, k, obj, False
        self.held, self.hheld, self.fhs, self.last, self.index = {}, {}, {}, None, {}

    def at(self, path, fresh=False):
        """the object of the scope: as created, or found by iteration"""
        key = tuple(path)
        if not path:
            return self.obj
        if not fresh and key in self.held:
            return self.held[key]
        o = self.obj
        for i in path:
            ks = list(o.scopes(ScopeTypeT.ALL))
            if not 1 <= i <= len(ks):
                raise Skip()
            o = ks[i - 1]
        return o

    def hist(self, j, fresh=False):
        """the history node: as created, or found by iteration"""
        if not fresh and j in self.hheld:
            return self.hheld[j]
        hs = list(self.obj.historyNodes(HistoryNodeKind.ALL))
        if not 1 <= j <= len(hs):
            raise Skip()
        return hs[j - 1]

    def project(self):
        d = self.nat.dump(self.k)
        hist = [{"par": h["par"], "log": enc.text(unhex(h["log"])), "phys": enc.text(unhex(h["phys"])),
                 "kind": str(h["kind"]), "f": fields(h)} for h in d["hist"]]

        def sel(*ks):
            return [j + 1 for j, h in enumerate(hist) if h["kind"] in ks or not ks]
        return {"tree": convert(d["tree"], d["tree"], []), "hist": hist,
                "sel": {"all": sel(), "test": sel("1"), "merge": sel("2")}, "own": True}

    def files(self):
        return [[enc.file(unhex(n)), enc.text(unhex(w))] for n, w in self.nat.dump(self.k)["files"]]


class NativeOps:
    """operations on databases of the library back end"""

    def nat(self):
        if not hasattr(self, "_nat"):
            self._nat = Native()
        return self._nat

    def ldb(self, h):
        if not 1 <= h <= len(self.dbs) or not isinstance(self.dbs[h - 1], LibDb) or self.dbs[h - 1].closed:
            raise Skip()
        return self.dbs[h - 1]

    def tree(self, d, path):
        n = (d.last or d.project())["tree"]
        for i in path:
            if not 1 <= i <= len(n["kids"]):
                raise Skip()
            n = n["kids"][i - 1]
        return n

    def nsource(self, d, op):
        s = op.get("src")
        if s is None:
            return None, "", "-1:-1"
        f, line, tok = s
        if f is None:
            return SourceInfo(None, line, tok), "", "%d:%d" % (line, tok)
        if f not in d.fhs:
            d.fhs[f] = d.obj.createFileHandle(f, None)
        return SourceInfo(d.fhs[f], line, tok), enc.file(f), "%d:%d" % (line, tok)

    def op_nnew(self, op, ev):
        nat = self.nat()
        k = nat.opened()
        ev["p"] = plist("ROOT", {}, 0, 0, togs(None, 0, 0, 0), "", 0) + [pentry("stray", "")]

        def run():
            obj = DbFormatIfLib().create() if op.get("how") == "fmt" else LibFactory.create()
            return LibDb(nat, k, obj)
        return run

    def op_nopen(self, op, ev):
        nat = self.nat()
        k = nat.opened()
        ev["f"] = op["f"]

        def run():
            obj = DbFormatIfLib().read(op["f"]) if op.get("how") == "fmt" else LibFactory.create(op["f"])
            return LibDb(nat, k, obj)
        return run

    def op_nmk(self, op, ev):
        d = self.ldb(op["h"])
        path = op["path"]
        parent = self.tree(d, path)
        ev.update(h=op["h"], path=path, ret=0)
        par = d.at(path, op.get("fresh"))
        t, name, w, c = op["t"], op["n"], op.get("w", 1), op.get("how") == "c"
        code, tn = TYPES[t]
        typ = getattr(ScopeTypeT, tn)
        lang = op.get("lang", "OTHER")
        lg = getattr(SourceT, lang)
        fl, fv = 0, 0
        for x in op.get("flags", ()):
            fl |= getattr(ucis, "UCIS_" + x)
            fv |= FLAGS[x]
        src, sf, sl = self.nsource(d, op)
        nd = {"t": t, "n": enc.name(name), "w": enc.nat(w), "du": "", "src": sf, "loc": sl, "pts": [], "pix": [],
              "p": [], "bins": [], "bx": [], "kids": []}
        tog, duat = togs(None, 0, 0, 0), ""
        cpar = None if not path else par
        if t == "INST":
            du = d.at(op["du"], op.get("fresh"))
            dn = self.tree(d, op["du"])
            nd["du"] = dn["n"]
            duat = ",".join(map(str, op["du"]))
            go = (lambda: ucis_CreateInstance(d.obj, cpar, name, src, w, lg, typ, du, fl)) if c else \
                (lambda: par.createInstance(name, src, w, lg, typ, du, fl))
        elif t == "TOG":
            m, y, z = op["tog"]
            nd.update(w=[], src="", loc="-1:-1")
            lang = "VHDL"               # none is given: the library's zero
            tog = togs(op["canon"], METRICS[m], TTYPES[y], DIRS[z])
            a = (name, op["canon"], fl, getattr(ToggleMetricT, m), getattr(ToggleTypeT, y), getattr(ToggleDirT, z))
            go = (lambda: ucis_CreateToggle(d.obj, cpar, *a)) if c else (lambda: par.createToggle(*a))
        elif t == "CR":
            cps = [i + 1 for i, k in enumerate(parent["kids"]) if k["t"] == "CP"]
            pts = []
            for p in op["pts"]:
                if not 1 <= p <= len(cps):
                    raise Skip()
                nd["pts"].append(parent["kids"][cps[p - 1] - 1]["n"])
                nd["pix"].append(p)
                pts.append(d.at(path + [cps[p - 1]]))
            fv = 0
            if not hasattr(par, "createCross"):
                raise Skip()
            go = lambda: par.createCross(name, src, w, lg, pts)
        elif t in ("CG", "CI", "CP") and not c and op.get("how") != "scope":
            meth = {"CG": "createCovergroup", "CI": "createCoverInstance", "CP": "createCoverpoint"}[t]
            if not hasattr(par, meth):
                raise Skip()
            fv = 0
            go = lambda: getattr(par, meth)(name, src, w, lg)
        else:
            go = (lambda: ucis_CreateScope(d.obj, cpar, name, src, w, lg, typ, fl)) if c else \
                (lambda: par.createScope(name, src, w, lg, typ, fl))
        nd["p"] = plist(t, {}, LANGS[lang], fv, tog, duat, 0) + [pentry("stray", "")]
        ev["node"] = nd

        def run():
            r = go()
            if not hasattr(r, "createNextCover"):
                raise TypeError("no scope: %r" % (r,))
            d.held[tuple(path) + (len(parent["kids"]) + 1,)] = r
        return run

    def op_nbin(self, op, ev):
        ev["op"] = "bin"
        d = self.ldb(op["h"])
        nd = self.tree(d, op["path"])
        if not op["path"]:
            raise Skip()
        ev.update(h=op["h"], path=op["path"])
        s = d.at(op["path"], op.get("fresh"))
        n, k, c = op["n"], op["k"], op["c"]
        kind = getattr(CoverTypeT, KINDS[k][1])
        ev["bin"] = {"n": enc.name(n), "k": k, "c": enc.nat(c), "al": enc.nat(1)}
        src, sf, sl = self.nsource(d, op)
        ev["bx"] = {"s": "none" if src is None else "%s|%s" % (sf, sl), "x": ""}
        how = op.get("how", "bin")
        if how == "bin" and hasattr(s, "createBin"):
            def go():
                if k == "bin" and op.get("dflt"):
                    return s.createBin(n, src, 1, c, n)
                return s.createBin(n, src, 1, c, n, kind)
        else:
            wide = op.get("wide") or c >= 1 << 32
            cd = CoverData(kind, (CoverFlagsT.IS_64BIT if wide else CoverFlagsT.IS_32BIT) | CoverFlagsT.HAS_GOAL)
            cd.data, cd.goal, cd.weight, cd.limit = c, op.get("goal", 1), op.get("bw", 1), op.get("limit", 0)
            ev["bx"]["x"] = "goal=%d weight=%d limit=%d bitlen=0 flags=%d set=" % (
                cd.goal, cd.weight, cd.limit, 8 | (2 if wide else 1))
            go = (lambda: ucis_CreateNextCover(d.obj, s, n, cd, src)) if how == "c" else \
                (lambda: s.createNextCover(n, cd, src))

        def run():
            r = go()
            if r is None:
                raise TypeError("no index")
            d.index[tuple(op["path"]) + (len(nd["bins"]) + 1,)] = r
            if not ev["bx"]["x"]:           # not given
                bx = self.tree_now(d, op["path"])["bx"]
                ev["bx"]["x"] = bx[-1]["x"] if bx else "none"
        return run

    def tree_now(self, d, path):
        n = d.project()["tree"]
        for i in path:
            n = n["kids"][i - 1]
        return n

    def op_nbset(self, op, ev):
        """a property of a bin"""
        d = self.ldb(op["h"])
        nd = self.tree(d, op["path"])
        if not 1 <= op["i"] <= len(nd["bx"]):
            raise Skip()
        code, name = BINPROPS[op["k"]]
        s = d.at(op["path"], op.get("fresh"))
        old = nd["bx"][op["i"] - 1]
        a, b = old["x"].split(" set=")
        kv = dict(x.split(":") for x in b.split(",") if x)
        kv[str(code)] = str(op["v"])
        ev.update(h=op["h"], path=op["path"], i=op["i"], bx={"s": old["s"], "x": a + " set=" + ",".join(
            "%s:%s" % (x, kv[x]) for x in sorted(kv, key=int))})

        def run():
            p = getattr(IntProperty, name)
            if op.get("how") == "c":
                ucis_SetIntProperty(d.obj, s, op["i"] - 1, p, op["v"])
            elif op.get("how") == "idx":
                x = d.index.get(tuple(op["path"]) + (op["i"],))
                (x if hasattr(x, "setIntProperty") else s).setIntProperty(op["i"] - 1, p, op["v"])
            else:
                s.setIntProperty(op["i"] - 1, p, op["v"])
        return run

    def op_nset(self, op, ev):
        ev["op"] = "set"
        d = self.ldb(op["h"])
        nd = self.tree(d, op["path"])
        k, v = op["k"], op["v"]
        if k not in keys_of(nd["t"]):
            raise Skip()
        string, code, name, setter, _ = PROPS[k]
        s = d.at(op["path"], op.get("fresh"))
        ev.update(h=op["h"], path=op["path"], k=k, v=enc.text(v) if string else "n:%d" % v, w=[])
        if k == "weight":
            ev["w"] = nd["w"]
        how = op.get("how")

        def run():
            if setter and how not in ("c", "prop") and hasattr(s, setter):
                getattr(s, setter)(bool(v) if k in BOOLS else v)
            elif string:
                p = getattr(StrProperty, name)
                if how == "c":
                    ucis_SetStringProperty(d.obj, s if op["path"] or not op.get("null") else None, -1, p, v)
                else:
                    s.setStringProperty(-1, p, v)
            else:
                p = getattr(IntProperty, name)
                if how == "c":
                    ucis_SetIntProperty(d.obj, s if op["path"] or not op.get("null") else None, -1, p, v)
                else:
                    s.setIntProperty(-1, p, v)
        return run

    def op_nfh(self, op, ev):
        d = self.ldb(op["h"])
        ev.update(of=op["h"], n=enc.file(op["n"]), wd=enc.text(op.get("wd")), got="", before=d.files(), after=[])

        def run():
            r = ucis_CreateFileHandle(d.obj, op["n"], op.get("wd")) if op.get("how") == "c" else \
                d.obj.createFileHandle(op["n"], op.get("wd"))
            ev["got"] = enc.file(r.getFileName())
            ev["after"] = d.files()
            d.fhs.setdefault(op["n"], r)
        return run

    def op_nhist(self, op, ev):
        d = self.ldb(op["h"])
        n = len((d.last or d.project())["hist"])
        if op.get("par", 0) > n:
            raise Skip()
        par = d.hist(op["par"], op.get("fresh")) if op.get("par") else None
        kind = HistoryNodeKind(op["kind"])
        ev.update(h=op["h"], node={"par": op.get("par", 0), "log": enc.text(op["log"]),
                                   "phys": enc.text(op.get("phys")), "kind": str(op["kind"]), "f": NOFIELDS})

        def run():
            r = ucis_CreateHistoryNode(d.obj, par, op["log"], op.get("phys"), kind) if op.get("how") == "c" else \
                d.obj.createHistoryNode(par, op["log"], op.get("phys"), kind)
            if not hasattr(r, "setTestData"):
                raise TypeError("no history node")
            d.hheld[n + 1] = r
        return run

    def op_nhset(self, op, ev):
        ev["op"] = "hset"
        d = self.ldb(op["h"])
        if not 1 <= op["node"] <= len((d.last or d.project())["hist"]):
            raise Skip()
        h = d.hist(op["node"], op.get("fresh"))
        st = op["status"]
        kv = [{"k": "status", "v": str(STATUS[st])}]
        ev.update(h=op["h"], node=op["node"], kv=kv)
        if op.get("how") == "status":
            return lambda: h.setTestStatus(getattr(TestStatusT, st))
        td = TestData(getattr(TestStatusT, st), op["vals"]["toolcategory"], op["vals"]["date"],
                      **{k: v for k, v in op["vals"].items() if k not in ("toolcategory", "date")})
        kv += [field(k, getattr(td, k)) for k in TD]
        if op.get("how") == "c":
            return lambda: ucis_SetTestData(d.obj, h, td)
        return lambda: h.setTestData(td)

    def op_nhiter(self, op, ev):
        """the test data of the history nodes of a kind"""
        d = self.ldb(op["h"])
        ev.update(of=op["h"], kind=str(op["kind"]), got=[])

        def run():
            k = HistoryNodeKind(op["kind"])
            it = iter(d.obj.getHistoryNodes(k) if op.get("how") == "list" else d.obj.historyNodes(k))
            for h in it:
                td = h.getTestData()
                f = [{"k": "status", "v": str(next((v for s, v in STATUS.items()
                                                    if getattr(TestStatusT, s) == td.teststatus), -1))}]
                ev["got"].append(f + [field(x, getattr(td, x)) for x in TD])
                if len(ev["got"]) > 50:
                    break
            else:
                if next(it, None) is not None:              # it stays at its end
                    ev["got"].append([])
        return run

    def op_niter(self, op, ev):
        """several iterations at once, advanced in turn: what is seen of each scope"""
        its, qs = [], []
        for q in op["qs"]:
            d = self.ldb(q["h"])
            self.tree(d, q["path"])
            mask = 0
            for m in q["mask"]:
                mask |= int(getattr(ScopeTypeT, TYPES[m][1]))
            its.append((d.at(q["path"], q.get("fresh")), mask))
            qs.append({"h": q["h"], "path": q["path"], "mask": q["mask"], "got": []})
        ev["qs"] = qs

        def run():
            live = [(iter(s.scopes(ScopeTypeT(m))), q) for (s, m), q in zip(its, qs)]
            n = 0
            while live and n < 2000:
                n += 1
                it, q = live.pop(0)
                try:
                    x = next(it)
                except StopIteration:
                    if next(it, None) is not None:          # it stays at its end
                        q["got"].append({"src": "after the end", "loc": ""})
                    continue
                si = x.getSourceInfo()
                q["got"].append({"src": "" if si.file is None else enc.file(si.file.getFileName()),
                                 "loc": "%s:%s" % (si.line, si.token)})
                live.append((it, q))
        return run

    def op_nwrite(self, op, ev):
        d = self.ldb(op["h"])
        s = None
        if op.get("scope"):
            self.tree(d, op["scope"])
            s = d.at(op["scope"], op.get("fresh"))
        n = self.nat().written()["n"]
        ct = op.get("covertype", -1)
        ev.update(of=op["h"], f=op["f"], got={}, want={
            "n": n + 1, "recurse": int(op.get("recurse", True)), "covertype": str(ct & 0xffffffff),
            "scope": op.get("scope") or []})

        def run():
            if op.get("how") == "c":
                ucis_Write(d.obj, op["f"], s, op.get("recurse", True), ct)
            elif op.get("how") == "dflt" and s is None and op.get("recurse", True) and ct == -1:
                d.obj.write(op["f"])
            else:
                d.obj.write(op["f"], s, op.get("recurse", True), ct)
            w = self.nat().written()
            ev["got"] = {"n": w["n"], "recurse": w["recurse"], "covertype": str(w["covertype"] & 0xffffffff),
                         "scope": w["scope"] or []}
        return run

    def op_nclose(self, op, ev):
        d = self.ldb(op["h"])
        ev.update(h=op["h"])

        def run():
            if op.get("how") == "c":
                ucis_Close(d.obj)
            else:
                d.obj.close()
            d.closed = True
        return run
