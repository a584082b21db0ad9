"""Executes programs of operations against the library, through its public
interface, and records what happened as events for the trace specification.

A program is a list of operations; an event is an operation with its arguments,
its outcome and the databases that changed or were created.  What a database
holds is read back through the public interface after every operation.
"""
import contextlib
import gzip
import io
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import re
import traceback

import enc
import xmlio
from native import LibDb, NativeOps, Skip

import ucis
from ucis import (UCIS_OTHER, UCIS_INST_ONCE, UCIS_ENABLED_STMT, UCIS_SCOPE_UNDER_DU,
                  ucis_CreateScope, ucis_CreateInstance, ucis_CreateToggle,
                  ucis_CreateNextCover, ucis_CreateHistoryNode,
                  ucis_CreateFileHandle, ucis_SetTestData, ucis_SetIntProperty,
                  ucis_GetIntProperty, ucis_SetStringProperty,
                  ucis_GetStringProperty)
from ucis.cover_data import CoverData
from ucis.cover_flags_t import CoverFlagsT
from ucis.cover_type_t import CoverTypeT
from ucis.history_node_kind import HistoryNodeKind
from ucis.int_property import IntProperty
from ucis.mem.mem_factory import MemFactory
from ucis.merge.db_merger import DbMerger
from ucis.report.coverage_report_builder import CoverageReportBuilder
from ucis.report.text_coverage_report_formatter import TextCoverageReportFormatter
from ucis.rgy.format_rgy import FormatRgy
from ucis.rgy.format_if_db import FormatDescDb, FormatDbFlags, FormatIfDb
from ucis.rgy.format_if_rpt import FormatDescRpt, FormatIfRpt, FormatRptOutFlags
from ucis.scope_type_t import ScopeTypeT as T
from ucis.mem.mem_source_file import MemSourceFile
from ucis.source_info import SourceInfo
from ucis.source_t import SourceT
from ucis.statement_id import StatementId
from ucis.str_property import StrProperty
from ucis.test_data import TestData
from ucis.test_status_t import TestStatusT
from ucis.xml import validate_ucis_xml
from ucis.xml.xml_factory import XmlFactory
from ucis.xml.xml_reader import XmlReader
from ucis.xml.xml_writer import XmlWriter
from ucis.yaml.yaml_reader import YamlReader

XSD = os.path.join(os.path.dirname(os.path.abspath(__file__)), "schema", "ucis.xsd")

TYPES = {"INST": T.INSTANCE, "CG": T.COVERGROUP, "CI": T.COVERINSTANCE, "CP": T.COVERPOINT,
         "CR": T.CROSS, "TOG": T.TOGGLE, "DU": T.DU_MODULE, "DU2": T.DU_ARCH, "DU3": T.DU_PACKAGE,
         "DU4": T.DU_PROGRAM, "DU5": T.DU_INTERFACE, "ROOT": T.RESERVEDSCOPE}
TNAME = {int(v): k for k, v in TYPES.items()}
KINDS = {"bin": CoverTypeT.CVGBIN, "ign": CoverTypeT.IGNOREBIN, "ill": CoverTypeT.ILLEGALBIN,
         "def": CoverTypeT.DEFAULTBIN, "usr": CoverTypeT.USERBIN, "stm": CoverTypeT.STMTBIN}
KNAME = {int(v): k for k, v in KINDS.items()}
ALLBINS = 0x00FFFFFFFFFFFFFF


class Timeout(BaseException):
    pass


def alarm(*_):
    raise Timeout()


# ---------------------------------------------------------------- projection

IPROPS = [("weight", "getWeight", "setWeight", IntProperty.SCOPE_WEIGHT),
          ("goal", "getGoal", "setGoal", IntProperty.COVER_GOAL),
          ("atleast", "getAtLeast", "setAtLeast", IntProperty.CVG_ATLEAST),
          ("autobin", "getAutoBinMax", "setAutoBinMax", IntProperty.CVG_AUTOBINMAX),
          ("overlap", "getDetectOverlap", "setDetectOverlap", IntProperty.CVG_DETECTOVERLAP),
          ("strobe", "getStrobe", "setStrobe", IntProperty.CVG_STROBE)]
CPROPS = [("perinst", "getPerInstance", "setPerInstance", IntProperty.CVG_PERINSTANCE),
          ("mergeinst", "getMergeInstances", "setMergeInstances", IntProperty.CVG_MERGEINSTANCES)]
BOOLS = {"overlap", "perinst", "mergeinst"}


def props_of(t):
    if t in ("CG", "CI"):
        return IPROPS + CPROPS + [("comment", "getComment", "setComment", None)]
    if t in ("CP", "CR"):
        return IPROPS + [("comment", "getComment", "setComment", None)]
    return IPROPS[:2]


def pv(k, v):
    if k in BOOLS and v in (True, False):
        v = int(v)
    return enc.text(v) if k == "comment" else ("n:%s" % enc.name(repr(v)) if isinstance(v, int) else "x:" + enc.name(repr(v)))


def av(v):
    return "n:%d" % v if isinstance(v, int) else enc.text(v)


def record(name, sid, key):
    """a record of instance coverage; keys by their number among those seen"""
    f = sid.getFile()
    return "%s|%s|%s|%s|%s" % (name, f.getFileName() if hasattr(f, "getFileName") else f.getFilename(),
                               sid.getLine(), sid.getItem(), key)


class Db:
    """a database and what is known about it"""

    def __init__(self, obj, props=False):
        self.obj, self.props = obj, props
        self.held = {}          # objects as creation returned them
        self.items = {}         # the items of instances, as they were when created
        self.fhs = []
        self.own, self.tops = True, []
        self.last = None

    def at(self, path):
        key = tuple(path)
        o = self.obj
        for i in path:
            ks = list(o.scopes(T.ALL))
            if not 1 <= i <= len(ks):
                raise Skip()
            o = ks[i - 1]
        h = self.held.get(key)
        return h if h is not None else o

    def node(self, s, parent_cps=()):
        t = TNAME.get(int(s.getScopeType()), "X%x" % int(s.getScopeType()))
        si = s.getSourceInfo()
        n = {"t": t, "n": enc.name(s.getScopeName()), "w": enc.nat(s.getWeight()),
             "du": "", "src": "", "loc": "%s:%s" % (si.line, si.token),
             "pts": [], "pix": [], "p": [], "bins": [], "bx": [], "kids": []}
        if si.file is not None:
            n["src"] = enc.file(si.file.getFileName())
        if t == "INST":
            du = s.getInstanceDu()
            n["du"] = "\\N" if du is None else enc.name(du.getScopeName())
            if du is not None and not any(du is x for x in self.tops):
                self.own = False        # of no database, or of another
        if t == "CR":
            for i in range(s.getNumCrossedCoverpoints()):
                cp = s.getIthCrossedCoverpoint(i)
                n["pts"].append(enc.name(cp.getScopeName()))
                n["pix"].append(next((j + 1 for j, c in enumerate(parent_cps) if c is cp), 0))
        if self.props and t != "ROOT" and t != "TOG":
            for k, g, _, ip in props_of(t):
                o = getattr(s, g)()
                c = ucis_GetIntProperty(self.obj, s, -1, ip) if ip is not None else \
                    ucis_GetStringProperty(self.obj, s, -1, StrProperty.COMMENT)
                n["p"].append({"k": k, "o": pv(k, o), "c": pv(k, c)})
        if self.props == "db":
            n["p"] += self.more(s, t)
        for b in s.coverItems(ALLBINS):
            n["bins"].append(bin_of(b))
            n["bx"].append(extra_of(b))
        kids = list(s.scopes(T.ALL))
        cps = [k for k in kids if int(k.getScopeType()) == int(T.COVERPOINT)]
        n["kids"] = [self.node(k, cps) for k in kids]
        return n

    def more(self, s, t):
        """items of instances; records and attributes of the database"""
        p = []

        def add(k, o, c):
            p.append({"k": k, "o": av(o), "c": av(c)})
        for k, ip in (("srctype", IntProperty.SCOPE_SOURCE_TYPE), ("underdu", IntProperty.SCOPE_IS_UNDER_DU)):
            add(k, s.getIntProperty(-1, ip), ucis_GetIntProperty(self.obj, None if t == "ROOT" else s, -1, ip))
        if t == "ROOT":
            for k, g, _, ip in IPROPS[:2]:
                add(k, getattr(s, g)(), ucis_GetIntProperty(self.obj, None, -1, ip))
            for k, v in (("by", s.getWrittenBy()), ("time", s.getWrittenTime()), ("api", s.getAPIVersion())):
                add(k, v, v)
            keys = []
            for j, c in enumerate(s.getCoverInstances()):
                keys.append(c.getKey())
                v = record(c.getName(), c.getId(), keys.index(keys[-1]))
                add("rec%d" % j, v, v)
        if t in ("INST", "TOG"):
            known = self.items.get(id(s), (s, []))[1]
            for j, x in enumerate(known):
                it = s.getIthCoverItem(j)
                add("item%d" % j, it.getStmtIndex() if it is x else "another", ucis_GetIntProperty(self.obj, s, j, IntProperty.STMT_INDEX))
            try:
                s.getIthCoverItem(len(known))
                add("item more", "", "")
            except Exception:
                pass
        return p

    def project(self):
        try:
            self.own, self.tops = True, list(self.obj.scopes(T.ALL))
            tree = self.node(self.obj)
        except Timeout:
            raise
        except BaseException:
            tree = broken(traceback.format_exc())
        try:
            hs = list(self.obj.historyNodes(HistoryNodeKind.ALL))
            hist = [hist_of(h, hs) for h in hs]

            def pos(kind):
                return [next((j + 1 for j, x in enumerate(hs) if x is h), 0)
                        for h in self.obj.historyNodes(kind)]
            sel = {"all": pos(HistoryNodeKind.ALL), "test": pos(HistoryNodeKind.TEST),
                   "merge": pos(HistoryNodeKind.MERGE)}
            if [id(x) for x in self.obj.getHistoryNodes(HistoryNodeKind.ALL)] != [id(x) for x in hs]:
                sel["all"] = [0]
        except Timeout:
            raise
        except BaseException:
            hist, sel = [], {"all": [0], "test": [], "merge": []}
        return {"tree": tree, "hist": hist, "sel": sel, "own": self.own}


def bin_of(b):
    d = b.getCoverData()
    return {"n": enc.name(b.getName()), "k": KNAME.get(int(d.type), "X%x" % int(d.type)),
            "c": enc.nat(d.data), "al": enc.nat(d.at_least)}


def src_of(si):
    """source information of a bin"""
    if si is None:
        return "none"
    return "%s|%s:%s" % ("" if si.file is None else enc.file(si.file.getFileName()), si.line, si.token)


def data_of(d):
    """what a bin holds beside its name, kind, count and at_least"""
    return " ".join("%s=%s" % (k, enc.name(repr(getattr(d, k, None)))) for k in ("goal", "weight", "limit", "bitlen")) \
        + " flags=%d" % int(d.flags)


def extra_of(b):
    return {"s": src_of(b.getSourceInfo()), "x": data_of(b.getCoverData())}


def broken(why):
    return {"t": "BROKEN", "n": enc.name(why[-300:]), "w": [], "du": "", "src": "", "loc": "",
            "pts": [], "pix": [], "p": [], "bins": [], "bx": [], "kids": []}


HGET = {"simtime": "SimTime", "timeunit": "TimeUnit", "runcwd": "RunCwd", "cputime": "CpuTime",
        "seed": "Seed", "cmd": "Cmd", "args": "Args", "compulsory": "Compulsory", "date": "Date",
        "user": "UserName", "cost": "Cost", "toolcategory": "ToolCategory", "vendorid": "VendorId",
        "vendortool": "VendorTool", "vendortoolversion": "VendorToolVersion",
        "sametests": "SameTests", "comment": "Comment"}
HTYPE = {k: t for _, k, t in xmlio.HATTR}


def hv(k, v):
    return enc.num(v) if HTYPE[k] == "num" else enc.text(v)


def hkind(k):
    if k is None:
        return "none"
    return str(int(k)) if isinstance(k, int) else "s:" + enc.name(k)


def hist_of(h, hs):
    p = h.getParent()
    f = [{"k": "status", "v": str(int(h.getTestStatus()))},
         {"k": "passed", "v": str(h.getIntProperty(-1, IntProperty.TEST_STATUS))}]
    f += [{"k": k, "v": hv(k, getattr(h, "get" + HGET[k])())} for k in xmlio.KEYS[2:]]
    return {"par": 0 if p is None else next((j + 1 for j, x in enumerate(hs) if x is p), -1),
            "log": enc.text(h.getLogicalName()), "phys": enc.text(h.getPhysicalName()),
            "kind": hkind(h.getKind()), "f": f}


def rbin(b):
    return {"n": enc.name(b.name), "g": enc.nat(b.goal), "c": enc.nat(b.count), "h": bool(b.hit)}


def ritem(c, cross):
    return {"n": enc.name(c.name), "w": enc.nat(c.weight), "cov": enc.pct(c.coverage),
            "bins": [rbin(b) for b in c.bins],
            "ign": [] if cross else [rbin(b) for b in c.ignore_bins],
            "ill": [] if cross else [rbin(b) for b in c.illegal_bins]}


def rmap(m, l):
    return [{"k": enc.name(k), "at": next((j + 1 for j, x in enumerate(l) if x is v), 0)}
            for k, v in m.items()]


def rcg(c):
    return {"n": enc.name(c.name), "w": enc.nat(c.weight), "cov": enc.pct(c.coverage),
            "cps": [ritem(x, False) for x in c.coverpoints], "crs": [ritem(x, True) for x in c.crosses],
            "cgs": [rcg(x) for x in c.covergroups], "cpm": rmap(c.coverpoint_m, c.coverpoints),
            "crm": rmap(c.cross_m, c.crosses), "cgm": rmap(c.covergroup_m, c.covergroups)}


def rep_of(r):
    return {"cov": enc.pct(r.coverage), "cgs": [rcg(c) for c in r.covergroups],
            "cgm": rmap(r.covergroup_m, r.covergroups)}


def jbin(b):
    return {"n": jname(b), "g": enc.nat(b["goal"]), "c": enc.nat(b["count"])}


def jname(x):
    if not isinstance(x["name"], str):
        raise ValueError("name")
    return enc.name(x["name"])


def jitem(x, cross):
    return {"n": jname(x), "cov": enc.pct(x["coverage"]),
            "bins": [jbin(b) for b in x.get("bins") or []],
            "ign": [jbin(b) for b in x.get("ignorebins") or []],
            "ill": [jbin(b) for b in x.get("illegalbins") or []]}


def jcg(x):
    return {"n": jname(x), "cov": enc.pct(x["coverage"]),
            "cps": [jitem(c, False) for c in x.get("coverpoints") or []],
            "crs": [jitem(c, True) for c in x.get("crosses") or []],
            "cgs": [jcg(c) for c in x.get("covergroups") or []]}


def json_rep(text):
    d = json.loads(text, parse_constant=lambda c: 1 / 0)
    if set(d) == {"covreport"}:
        d = d["covreport"]
    return {"cov": enc.pct(d["coverage"]), "cgs": [jcg(c) for c in d.get("covergroups") or []]}


HEAD = re.compile(r"^( *)(TYPE|INST|CVP|CROSS) (.*) : ([^ %]+)%$", re.S)
SECT = re.compile(r"^( *)(Bins:|IgnoreBins:|IllegalBins:)$")
BIN = re.compile(r"^( *)(.*) : (\d+)$", re.S)


def text_lines(text):
    out, stack = [], []
    if text and not text.endswith("\n"):
        raise ValueError("last line")
    for line in text.split("\n")[:-1]:
        m, k = HEAD.match(line), None
        if m:
            cov = enc.big(round(__import__("fractions").Fraction(m.group(4)) * 10 ** 9))
            row = {"k": m.group(2), "n": enc.name(m.group(3)), "c": [], "cov": cov}
        else:
            m = SECT.match(line)
            if m:
                row = {"k": "H", "n": m.group(2), "c": [], "cov": []}
            else:
                m = BIN.match(line)
                if not m:
                    raise ValueError("line %r" % line)
                row = {"k": "B", "n": enc.name(m.group(2)), "c": enc.big(int(m.group(3))), "cov": []}
        w = len(m.group(1))
        while stack and stack[-1] > w:
            stack.pop()
        if not stack or stack[-1] < w:
            stack.append(w)
        row["d"] = len(stack) - 1
        out.append(row)
    return out


# ------------------------------------------------------------------- running

class Run(NativeOps):
    def __init__(self, scen, scratch):
        self.scen, self.dir = scen, scratch
        self.props = scen.get("props")
        self.dbs = []                   # Db or None (never came to be)
        self.tools = {}
        self.ev = []
        self.log = []
        self.errlen = 0
        self.rg, self.stands = None, {}
        self.encs = {}                  # encodings of the files given

    # -- helpers
    def db(self, h):
        if not 1 <= h <= len(self.dbs) or not isinstance(self.dbs[h - 1], Db):
            raise Skip()
        return self.dbs[h - 1]

    def path(self, f):
        return os.path.join(self.dir, f)

    def tool(self, kind, how):
        """a new object, or the one kept under the name given"""
        cls = {"merger": DbMerger, "xreader": XmlReader, "xwriter": XmlWriter, "yreader": YamlReader}[kind]
        if how == "new":
            return cls()
        return self.tools.setdefault((kind, how), cls())

    def source(self, d, op):
        """source information, and how it is expected to be seen"""
        s = op.get("src")
        if s is None:
            return None, "", "-1:-1"
        f, line, tok = s
        if f is None:
            return SourceInfo(None, line, tok), "", "%s:%s" % (line, tok)
        return SourceInfo(d.obj.createFileHandle(f, None), line, tok), enc.file(f), "%s:%s" % (line, tok)

    # -- operations: each returns the event's own fields
    def op_new(self, op, ev):
        how = op.get("how", "mem")
        obj = MemFactory.create() if how == "mem" else FormatRgy.inst().getDatabaseDesc(how).fmt_if().create()
        return obj

    def op_mk(self, op, ev):
        d = self.db(op["h"])
        ev.update(h=op["h"], path=op["path"], ret=-1)
        par = d.at(op["path"])
        t, name, w, c = op["t"], op["n"], op.get("w", 1), op.get("how") == "c"
        src, sf, sl = self.source(d, op)
        nd = {"t": t, "n": enc.name(name), "w": enc.nat(w), "du": "", "src": sf, "loc": sl, "pts": [],
              "pix": [], "p": [], "bins": [], "bx": [], "kids": []}
        ev["node"] = nd
        flags = UCIS_INST_ONCE | UCIS_SCOPE_UNDER_DU | UCIS_ENABLED_STMT
        if t == "INST":
            du = None
            if op.get("du"):
                du = d.at(op["du"])
                nd["du"] = enc.name(du.getScopeName())
            else:
                nd["du"] = "\\N"
            go = (lambda: ucis_CreateInstance(d.obj, None if not op["path"] else par, name, src, w, UCIS_OTHER,
                                              T.INSTANCE, du, UCIS_INST_ONCE)) if c else \
                (lambda: par.createInstance(name, src, w, UCIS_OTHER, T.INSTANCE, du, UCIS_INST_ONCE))
        elif t.startswith("DU"):
            go = (lambda: ucis_CreateScope(d.obj, None if not op["path"] else par, name, src, w, UCIS_OTHER,
                                           TYPES[t], flags)) if c else \
                (lambda: par.createScope(name, src, w, UCIS_OTHER, TYPES[t], flags))
        elif t == "TOG":
            nd.update(w=[], src="", loc="-1:-1")
            a = (name, name, 0, ucis.UCIS_TOGGLE_METRIC_ENUM, ucis.UCIS_TOGGLE_TYPE_REG, ucis.UCIS_TOGGLE_DIR_IN)
            go = (lambda: ucis_CreateToggle(d.obj, par, *a)) if c else (lambda: par.createToggle(*a))
        elif t == "CR":
            kids = [k for k in par.scopes(T.COVERPOINT)]
            pts = []
            for p in op["pts"]:
                if isinstance(p, list):         # a coverpoint of another scope
                    cp = d.at(p)
                    nd["pix"].append(next((j + 1 for j, k in enumerate(kids) if k is cp), 0))
                else:
                    if not 1 <= p <= len(kids):
                        raise Skip()
                    cp = kids[p - 1]
                    nd["pix"].append(p)
                nd["pts"].append(enc.name(cp.getScopeName()))
                pts.append(cp)

            def go():
                r = par.createCross(name, src, w, UCIS_OTHER, pts)
                pts.append(None)                # the list is ours
                return r
        else:
            st = TYPES[t]
            meth = {"CG": "createCovergroup", "CI": "createCoverInstance", "CP": "createCoverpoint"}[t]
            how = op.get("how", "oo")
            if how == "c":
                go = lambda: ucis_CreateScope(d.obj, par, name, src, w, UCIS_OTHER, st, 0)
            elif how == "scope":
                go = lambda: par.createScope(name, src, w, UCIS_OTHER, st, 0)
            else:
                go = lambda: getattr(par, meth)(name, src, w, UCIS_OTHER)

        def run():
            r = go()
            ks = list(par.scopes(T.ALL))
            ev["ret"] = next((j + 1 for j, k in enumerate(ks) if k is r), 0)
            if ev["ret"]:
                d.held[tuple(op["path"]) + (ev["ret"],)] = r
        return run

    def op_build(self, op, ev):
        """creations in one database, observed once"""
        d = self.db(op["h"])
        ev.update(h=op["h"], steps=[])

        def run():
            for sub in op["steps"]:
                se = {"op": sub["op"]}
                go = getattr(self, "op_" + sub["op"])(dict(sub, h=op["h"]), se)
                go()
                se.pop("h")
                se.pop("ret", 0)
                ev["steps"].append(se)
        return run

    def pick(self, op):
        """an operation on something picked from the state reached: a scope of one
        of the types given, or a bin"""
        d = self.db(op["h"])
        found = []

        def walk(n, path):
            if op["op"] == "hit":
                found.extend((path, i + 1) for i in range(len(n["bins"])))
            elif n["t"] in op["in"]:
                found.append((path, 0))
            for i, k in enumerate(n["kids"]):
                walk(k, path + [i + 1])
        walk((d.last or d.project())["tree"], [])
        if not found:
            raise Skip()
        path, i = found[int(op["pick"] * len(found)) % len(found)]
        return dict(op, path=path, **({"i": i} if op["op"] == "hit" else {}))

    def resolve(self, op):
        """paths given by type, and position among the children of that type"""
        d = self.ldb(op["h"]) if op["op"].startswith("n") else self.db(op["h"])
        n = (d.last or d.project())["tree"]
        op = dict(op)
        if op.get("dulast"):
            op["du"] = [max(i + 1 for i, k in enumerate(n["kids"]) if k["t"].startswith("DU"))]
        path = []
        for t, i in op.get("tpath", ()):
            at = [j for j, k in enumerate(n["kids"]) if k["t"] == t]
            if i > len(at):
                raise Skip()
            path.append(at[i - 1] + 1)
            n = n["kids"][at[i - 1]]
        if "tpath" in op:
            op["path"] = path
        if "tbin" in op:
            k, i = op["tbin"]
            at = [j for j, b in enumerate(n["bins"]) if b["k"] == k]
            if i > len(at):
                raise Skip()
            op["i"] = at[i - 1] + 1
        return op

    def op_bin(self, op, ev):
        d = self.db(op["h"])
        ev.update(h=op["h"], path=op["path"])
        s = d.at(op["path"])
        n, k, c, al = op["n"], op["k"], op["c"], op["al"]
        ev["bin"] = {"n": enc.name(n), "k": k, "c": enc.nat(c), "al": enc.nat(al)}
        src, _, _ = self.source(d, op)
        ev["bx"] = {"s": src_of(src), "x": ""}

        def run():
            how = op.get("how", "bin")
            if how == "bin":
                if k == "bin" and op.get("dflt"):
                    r = s.createBin(n, src, al, c, n)
                else:
                    r = s.createBin(n, src, al, c, n, KINDS[k])
            else:
                cd = CoverData(KINDS[k], CoverFlagsT.IS_32BIT | CoverFlagsT.HAS_GOAL)
                cd.data, cd.at_least, cd.goal, cd.weight = c, al, op.get("goal", 1), op.get("bw", 1)
                ev["bx"]["x"] = data_of(cd)
                r = ucis_CreateNextCover(d.obj, s, n, cd, src) if how == "c" else s.createNextCover(n, cd, src)
            if not ev["bx"]["x"]:       # not given
                ev["bx"]["x"] = data_of(r.getCoverData())
            bs = list(s.coverItems(ALLBINS))
            for j, b in enumerate(bs):
                if b is r:
                    d.held[tuple(op["path"]) + ("b", j + 1)] = r
        return run

    def op_hit(self, op, ev):
        d = self.db(op["h"])
        ev.update(h=op["h"], path=op["path"], i=op["i"], amt=enc.nat(op["amt"]))
        s = d.at(op["path"])
        bs = list(s.coverItems(ALLBINS))
        if not 1 <= op["i"] <= len(bs):
            raise Skip()
        b = bs[op["i"] - 1]
        if op.get("held"):
            b = d.held.get(tuple(op["path"]) + ("b", op["i"]), b)

        def run():
            if op["amt"] == 1 and op.get("dflt"):
                b.incrementCover()
            else:
                b.incrementCover(op["amt"])
        return run

    def op_set(self, op, ev):
        d = self.db(op["h"])
        s = d.at(op["path"])
        k, v = op["k"], op["v"]
        t = TNAME.get(int(s.getScopeType()))
        if self.props == "db":
            go = self.set_more(d, s, t, op, ev)
            if go is not None:
                return go
        spec = {x[0]: x for x in props_of(t)}.get(k)
        if spec is None or t in ("ROOT", "TOG"):
            raise Skip()
        ev.update(h=op["h"], path=op["path"], k=k, v=pv(k, v), w=enc.nat(v) if k == "weight" else [])

        def run():
            if op.get("how") == "c":
                if spec[3] is None:
                    ucis_SetStringProperty(d.obj, s, -1, StrProperty.COMMENT, v)
                else:
                    ucis_SetIntProperty(d.obj, s, -1, spec[3], int(v))
            else:
                getattr(s, spec[2])(bool(v) if k in BOOLS else v)
        return run

    def set_more(self, d, s, t, op, ev):
        k, v, how = op["k"], op["v"], op.get("how")
        if k == "item":
            n = len(d.items.get(id(s), (s, []))[1])
            if not n or t not in ("INST", "TOG"):
                raise Skip()
            i = op["ix"] if "ix" in op else int(op["i"] * n)
            k = "item%d" % i
            go = {"c": lambda: ucis_SetIntProperty(d.obj, s, i, IntProperty.STMT_INDEX, v),
                  "oo": lambda: s.setIntProperty(i, IntProperty.STMT_INDEX, v)}.get(
                      how, lambda: s.getIthCoverItem(i).setStmtIndex(v))
        elif k == "srctype":
            go = (lambda: ucis_SetIntProperty(d.obj, s if op["path"] else None, -1, IntProperty.SCOPE_SOURCE_TYPE, v)) \
                if how == "c" else (lambda: s.setIntProperty(-1, IntProperty.SCOPE_SOURCE_TYPE, v))
        elif t == "ROOT" and k in ("by", "time"):
            go = lambda: (s.setWrittenBy if k == "by" else s.setWrittenTime)(v)
        elif t == "ROOT" and k in ("weight", "goal"):
            spec = IPROPS[k == "goal"]
            go = (lambda: ucis_SetIntProperty(d.obj, None, -1, spec[3], v)) if how == "c" else (lambda: getattr(s, spec[2])(v))
        else:
            return None
        ev.update(h=op["h"], path=op["path"], k=k, v=av(v), w=enc.nat(v) if k == "weight" else [])
        return go

    def op_item(self, op, ev):
        """an item of a design instance"""
        d = self.db(op["h"])
        s = d.at(op["path"])
        if TNAME.get(int(s.getScopeType())) not in ("INST", "TOG"):
            raise Skip()
        ev.update(h=op["h"], path=op["path"], ret=-1)
        cd = CoverData(CoverTypeT.STMTBIN, CoverFlagsT.IS_32BIT)
        cd.data = op.get("c", 0)
        src, _, _ = self.source(d, op)

        def run():
            ev["ret"] = int(ucis_CreateNextCover(d.obj, s, op["n"], cd, src) if op.get("how") == "c"
                            else s.createNextCover(op["n"], cd, src))
            d.items.setdefault(id(s), (s, []))[1].append(s.getIthCoverItem(ev["ret"]))
        return run

    def op_baditem(self, op, ev):
        """an item that there is not"""
        d = self.db(op["h"])
        s = d.at(op["path"])
        if TNAME.get(int(s.getScopeType())) not in ("INST", "TOG"):
            raise Skip()
        n = len(d.items.get(id(s), (s, []))[1])
        i = n + op["i"] if op["i"] >= 0 else max(op["i"], -n) if n else -1
        return {"set": lambda: ucis_SetIntProperty(d.obj, s, i, IntProperty.STMT_INDEX, 5),
                "get": lambda: ucis_GetIntProperty(d.obj, s, i, IntProperty.STMT_INDEX)}.get(
                    op.get("how"), lambda: s.getIthCoverItem(i))

    def op_record(self, op, ev):
        """a record of instance coverage"""
        d = self.db(op["h"])
        n = len(list(d.obj.getCoverInstances()))
        f = d.obj.createFileHandle(op["f"], None) if op.get("how") != "file" else MemSourceFile(1, op["f"])
        sid = StatementId(f, op["line"], op["item"])
        ev.update(h=op["h"], v=av(record(op["n"], StatementId(MemSourceFile(1, op["f"]), op["line"], op["item"]), n)), got="")

        def run():
            r = d.obj.createCoverInstance(op["n"], sid)
            ev["got"] = av(record(r.getName(), r.getId(), n))
        return run

    def op_iter(self, op, ev):
        """several iterations at once, advanced in turn"""
        its, qs = [], []
        for q in op["qs"]:
            if "pick" in q:
                q = self.pick(dict(q, op="iter"))
            d = self.db(q["h"])
            s = d.at(q["path"])
            allk = list(s.scopes(T.ALL) if q["what"] == "scopes" else s.coverItems(ALLBINS))
            mask = 0
            for m in q["mask"]:
                mask |= int(TYPES[m] if q["what"] == "scopes" else KINDS[m])
            its.append((s, mask, allk))
            qs.append({"h": q["h"], "path": q["path"], "what": q["what"], "mask": q["mask"], "got": []})
        ev["qs"] = qs

        def run():
            live = []
            for (s, mask, allk), q in zip(its, qs):
                m = T(mask) if q["what"] == "scopes" else CoverTypeT(mask)
                live.append((iter(s.scopes(m) if q["what"] == "scopes" else s.coverItems(m)), allk, q))
            n = 0
            while live and n < 100000:
                n += 1
                it, allk, q = live.pop(0)
                try:
                    x = next(it)
                except StopIteration:
                    if next(it, None) is not None:          # it stays at its end
                        q["got"].append(0)
                    continue
                q["got"].append(next((j + 1 for j, k in enumerate(allk) if k is x), 0))
                if len(q["got"]) > 4 * len(allk) + 4:
                    continue            # never ends: enough seen
                live.append((it, allk, q))
        return run

    def op_fh(self, op, ev):
        d = self.db(op["of"])
        ev.update(of=op["of"], n=enc.file(op["n"]), id=0, got="")

        def run():
            r = ucis_CreateFileHandle(d.obj, op["n"], op.get("wd")) if op.get("how") == "c" else \
                d.obj.createFileHandle(op["n"], op.get("wd"))
            ev["got"] = enc.file(r.getFileName())
            for j, x in enumerate(d.fhs):
                if x is r:
                    ev["id"] = j + 1
            if not ev["id"]:
                d.fhs.append(r)
                ev["id"] = len(d.fhs)
        return run

    def op_hist(self, op, ev):
        d = self.db(op["h"])
        ev.update(h=op["h"], par=op.get("par", 0), log=enc.text(op["log"]), phys=enc.text(op.get("phys")),
                  kind=hkind(op.get("kind")))
        hs = list(d.obj.historyNodes(HistoryNodeKind.ALL))
        par = None
        if op.get("par"):
            if op["par"] > len(hs):
                raise Skip()
            par = hs[op["par"] - 1]
        kind = None if op.get("kind") is None else HistoryNodeKind(op["kind"])

        def run():
            if op.get("how") == "c":
                ucis_CreateHistoryNode(d.obj, par, op["log"], op.get("phys"), kind)
            elif op.get("how") == "dflt" and kind is None and op.get("phys") is None:
                d.obj.createHistoryNode(par, op["log"])
            else:
                d.obj.createHistoryNode(par, op["log"], op.get("phys"), kind)
        return run

    def op_hset(self, op, ev):
        d = self.db(op["h"])
        hs = list(d.obj.historyNodes(HistoryNodeKind.ALL))
        if not 1 <= op["node"] <= len(hs):
            raise Skip()
        h = hs[op["node"] - 1]
        vals = op["vals"]
        ev.update(h=op["h"], node=op["node"])
        how = op.get("how", "set")

        def status(v):
            return [{"k": "status", "v": str(int(v))}, {"k": "passed", "v": "1" if v == 1 else "0"}]
        kv = []
        for k, v in vals:
            if k == "status":
                kv += status(v if how != "prop" else (1 if v == 1 else 0))
            else:
                kv.append({"k": k, "v": hv(k, v)})
        if how in ("data", "cdata"):
            dv = dict(vals)
            td = TestData(TestStatusT(dv.pop("status")), dv.pop("toolcategory"), dv.pop("date"), **dv)
            # what was left out has the defaults of the test data
            for k, a in (("simtime", td.simtime), ("timeunit", td.timeunit), ("runcwd", td.runcwd),
                         ("cputime", td.cputime), ("seed", td.seed), ("cmd", td.cmd), ("args", td.args),
                         ("compulsory", td.compulsory), ("user", td.user), ("cost", td.cost)):
                if k not in dict(vals):
                    kv.append({"k": k, "v": hv(k, a)})
        ev["kv"] = kv

        def run():
            if how == "data":
                h.setTestData(td)
            elif how == "cdata":
                ucis_SetTestData(d.obj, h, td)
            else:
                for k, v in vals:
                    if k == "status":
                        if how == "prop":
                            ucis_SetIntProperty(d.obj, h, -1, IntProperty.TEST_STATUS, v)
                        else:
                            h.setTestStatus(TestStatusT(v))
                    else:
                        getattr(h, "set" + HGET[k])(v)
        return run

    def op_merge(self, op, ev):
        srcs = [self.db(h).obj for h in op["srcs"]]
        like = op.get("like", 0)
        if like and (like > len(self.dbs) or self.dbs[like - 1] is None):
            like = 0
        ev.update(srcs=op["srcs"], like=like, fresh=[])
        to = op.get("to", "mem")
        how = op.get("how", "new")
        m = self.tool("merger", how)

        def run():
            dst = MemFactory.create() if to == "mem" else FormatRgy.inst().getDatabaseDesc(to).fmt_if().create()
            sl = list(srcs)
            m.merge(dst, sl)
            if [id(x) for x in sl] != [id(x) for x in srcs]:
                raise RuntimeError("the list of sources was changed")
            if how != "new":            # what a new merger would do
                d2 = Db(MemFactory.create())
                DbMerger().merge(d2.obj, list(srcs))
                d2.props = self.props
                ev["fresh"] = [d2.project()["tree"]]
            return dst
        return run

    def op_report(self, op, ev):
        d = self.db(op["of"])
        ev.update(of=op["of"], rep={"cov": [], "cgs": [], "cgm": []})

        def run():
            ev["rep"] = rep_of(CoverageReportBuilder.build(d.obj))
        return run

    def formatter(self, fmt, how):
        if how == "new":
            return FormatRgy.inst().getReportDesc(fmt).fmt_if()
        return self.tools.setdefault((fmt, how), FormatRgy.inst().getReportDesc(fmt).fmt_if())

    def op_json(self, op, ev):
        d = self.db(op["of"])
        ev.update(of=op["of"], rep={"cov": [], "cgs": []})
        f = self.formatter("json", op.get("how", "new"))

        def run():
            s = io.StringIO()
            f.report(d.obj, s, [])
            ev["rep"] = json_rep(s.getvalue())
        return run

    def op_text(self, op, ev):
        d = self.db(op["of"])
        det, order = bool(op.get("det")), bool(op.get("order"))
        ev.update(of=op["of"], det=det, order=order, lines=[])
        how = op.get("how", "new")
        if how == "tcrf":
            r = op.get("round", 2)
            tol = 5 * 10 ** 8 // 10 ** r + 1000
            ev.update(tolg=enc.big(tol), toli=enc.big(tol))
        else:
            ev.update(tolg=enc.big(5 * 10 ** 6 + 1000), toli=enc.big(5 * 10 ** 8 + 1000))

        def run():
            s = io.StringIO()
            if how == "tcrf":
                f = TextCoverageReportFormatter(CoverageReportBuilder.build(d.obj), s)
                f.details, f.order_bins_by_hit, f.round = det, order, op.get("round", 2)
                f.report()
            else:
                f = self.formatter("txt", how)
                f.details, f.order_bins_by_hit = det, order
                f.report(d.obj, s, [])
            ev["lines"] = text_lines(s.getvalue())
        return run

    def op_file(self, op, ev):
        parts = op["f"].split("/")
        ev.update(f=op["f"], val=op["val"], dirs=["/".join(parts[:k]) for k in range(1, len(parts))])
        code = op.get("enc") or "utf-8"
        self.encs[op["f"]] = code
        data = op["text"].encode("latin-1" if op.get("raw") else code,
                                 "xmlcharrefreplace" if op["val"]["k"] == "xml" else "strict")
        if op.get("gz"):
            data = gzip.compress(data)
        if op.get("cut"):
            data = data[:-op["cut"]]
        os.makedirs(os.path.dirname(self.path(op["f"])), exist_ok=True)
        with open(self.path(op["f"]), "wb") as fp:
            fp.write(data)
        return lambda: None

    def op_xwrite(self, op, ev):
        d = self.db(op["of"])
        ev.update(of=op["of"], f=op["f"], parsed=False, valid=False, files=[], ids=[],
                  val={"k": "other", "doc": [], "hist": [], "src": []})
        p, how = self.path(op["f"]), op.get("how", "factory")
        self.encs.pop(op["f"], None)
        if op.get("tz"):
            os.environ["TZ"] = op["tz"]
            time.tzset()

        def run():
            if how == "factory":
                XmlFactory.write(d.obj, p)
            elif how == "factoryfp":
                with open(p, "w", encoding="utf-8") as fp:
                    XmlFactory.write(d.obj, fp)
            elif how == "ucis" and hasattr(d.obj, "write") and type(d.obj).__name__ == "XmlUCIS":
                d.obj.write(p)
            else:
                s = io.StringIO()
                self.tool("xwriter", how if how != "ucis" else "new").write(s, d.obj)
                with open(p, "w", encoding="utf-8") as fp:
                    fp.write(s.getvalue())
            with open(p, "rb") as fp:
                data = fp.read()
            try:
                ev["val"], ev["files"], ev["ids"] = xmlio.parse(data)
                ev["parsed"] = True
                ev["valid"] = xmlio.valid(data, XSD)
            except Timeout:
                raise
            except Exception as e:
                self.log.append("parse: %s" % e)
        return run

    def op_xread(self, op, ev):
        p, how = self.path(op["f"]), op.get("how", "factory")
        if not os.path.exists(p):
            raise Skip()
        ev.update(f=op["f"], strict=how in ("factory", "factoryfp", "rgy", "factorybin"))

        def run():
            if how == "factory":
                return XmlFactory.read(p)
            if how == "rgy":
                return FormatRgy.inst().getDatabaseDesc("xml").fmt_if().read(p)
            with open(p, "rb") as fp:
                data = fp.read()
            packed = data[:2] == b"\x1f\x8b"
            if packed:
                data = gzip.decompress(data)
            if how == "factorybin":
                return XmlFactory.read(io.BytesIO(data))
            # text that is not in a file any more declares no encoding
            code = self.encs.get(op["f"], "utf-8")
            s = re.sub(r"^(<\?xml[^>]*?) encoding=(\"[^\"]*\"|'[^']*')", r"\1", data.decode(code).lstrip("\ufeff"))
            if how == "factoryfp" and (packed or code != "utf-8"):
                return XmlFactory.read(io.StringIO(s))
            if how == "factoryfp":
                with open(p, "r", encoding="utf-8") as fp:
                    return XmlFactory.read(fp)
            if how.endswith("s"):
                return self.tool("xreader", how[:-1]).loads(s)
            return self.tool("xreader", how).read(io.StringIO(s))
        return run

    def op_xvalid(self, op, ev):
        """the validator by itself"""
        p, how = self.path(op["f"]), op["how"]
        if not os.path.exists(p):
            raise Skip()
        with open(p, "rb") as fp:
            data = fp.read()
        if data[:2] == b"\x1f\x8b":
            if op.get("cut"):
                raise Skip()
            data, how = gzip.decompress(data), "bin"
        ev.update(f=op["f"])

        def run():
            fn = XmlReader.validate if how.startswith("r") else validate_ucis_xml
            if how.endswith("path"):
                r = fn(p)
            elif how.endswith("fp") and self.encs.get(op["f"], "utf-8") == "utf-8":
                with open(p, "r", encoding="utf-8") as fp:
                    r = fn(fp)
            else:
                r = fn(io.BytesIO(data))
            if fn is validate_ucis_xml and r is not True:
                raise RuntimeError("says %r" % r)
        return run

    def op_yread(self, op, ev):
        p, how = self.path(op["f"]), op.get("how", "new")
        if not os.path.exists(p):
            raise Skip()
        ev.update(f=op["f"])

        def run():
            if how == "rgy":
                return FormatRgy.inst().getDatabaseDesc("yaml").fmt_if().read(p)
            if how.endswith("b"):
                with open(p, "rb") as fp:
                    return self.tool("yreader", how[:-1]).load(fp)
            with open(p, "r", encoding=self.encs.get(op["f"], "utf-8")) as fp:
                if how.endswith("s"):
                    return self.tool("yreader", how[:-1]).loads(fp.read())
                return self.tool("yreader", how).load(fp)
        return run

    # -- command line
    def op_cli(self, op, ev):
        cmd = op["cmd"]
        ev.update(cmd=cmd, infmt=enc.name(op.get("infmt") or "xml"),
                  outfmt=enc.name(op.get("outfmt") or ("txt" if cmd == "report" else "xml")),
                  ins=op.get("ins", []), out=op.get("out") or "", exit=-1, msg=False, files=[], parsed=False,
                  rep={"cov": [], "cgs": []}, lines=[], det=False, order=False,
                  tolg=enc.big(5 * 10 ** 6 + 1000), toli=enc.big(5 * 10 ** 8 + 1000), valid=False,
                  unrep=bool(op.get("unrep")), uniform=bool(op.get("uniform")), got=[], want=[])

        def run():
            self.encs.pop(op.get("out"), None)
            before = self.snapshot()
            argv = [a if a[:2] != "@/" and "=@/" not in a else a.replace("@/", self.dir + "/", 1) for a in op["argv"]]
            code, out, err = self.command(argv, op.get("real"), op.get("ascii") and self.rg is None)
            after = self.snapshot()
            ev["exit"] = code
            ev["msg"] = bool(out.strip() or err.strip())
            self.log.append("cli %s -> %s %s" % (op["argv"], code, err[-300:]))
            for f in sorted(set(before) | set(after)):
                if before.get(f, 0) != after.get(f, 0):
                    v = {"k": "gone" if f not in after else "dir" if after[f] is None else "other", "doc": [], "hist": [], "src": []}
                    if f in after and after[f] is not None:
                        try:
                            v, _, _ = xmlio.parse(after[f])
                            if f == op.get("out"):
                                ev["valid"] = xmlio.valid(after[f], XSD)
                        except Timeout:
                            raise
                        except Exception:
                            pass
                    ev["files"].append({"f": f, "v": v})
            if cmd == "list":
                for l in out.splitlines():
                    n, _, x = l.partition(" - ")
                    ev["got"].append([enc.name(n.rstrip()), enc.name(x)])
                ev["want"] = op.get("want", [])
                ev["list"] = "db" if "db" in argv[0] else "rpt"
            base = (op.get("out") or "") + "/"
            ev["under"] = [x["f"] for x in ev["files"] if x["f"].startswith(base)]
            ev["above"] = [x["f"] for x in ev["files"] if base.startswith(x["f"] + "/") and x["v"]["k"] == "dir"]
            ev["holds"] = sorted(f[len(base):] for f in after if f.startswith(base))
            if cmd == "report" and code == 0:
                try:
                    text = out
                    if op.get("out"):
                        o = self.path(op["out"])
                        with open(os.path.join(o, "index.txt") if os.path.isdir(o) else o, encoding="utf-8") as fp:
                            text = fp.read()
                    if self.stands.get(ev["outfmt"], ev["outfmt"]) == "json":
                        ev["rep"] = json_rep(text)
                    else:
                        ev["lines"] = text_lines(text)
                    ev["parsed"] = True
                except Timeout:
                    raise
                except Exception as e:
                    self.log.append("report: %s" % e)
        return run

    # -- formats
    def op_rgstart(self, op, ev):
        def run():
            rg = FormatRgy.inst()
            self.rg = rg
            self.classes = {}
            self.base = {n: rg.getDatabaseDesc(n).fmt_if for n in ("xml", "yaml")}
            self.base.update({n: rg.getReportDesc(n).fmt_if for n in ("txt", "json")})
            self.probe = sorted(set(["libucis", "xml", "yaml", "json", "txt", "nofmt", "XML", ""] + op["names"]))
        return run

    def op_fmt(self, op, ev):
        n, kind, what, to, d, fl = op["n"], op["kind"], op["as"], op["to"], op["d"], op["fl"]
        label = "Fmt%d" % len(self.ev)
        base = self.base.get(what, FormatIfDb)
        if kind == "db":
            flags = FormatDbFlags(fl)
            own = {}
        else:
            flags = {"stream": FormatRptOutFlags.Stream, "dir": FormatRptOutFlags.Dir}.get(to, FormatRptOutFlags(0))

            def report(me, db, out, args):
                if not isinstance(out, str):
                    return base.report(me, db, out, args)
                with open(os.path.join(out, "index.txt"), "w", encoding="utf-8") as fp:
                    base.report(me, db, fp, args)
            own = {"report": report}
        # a class may go by several names
        if op.get("cls") == "base" and to != "dir":
            cls = base
        elif op.get("cls") == "last" and (kind, what) in self.classes:
            cls = self.classes[kind, what]
        else:
            cls = type(label, (base,), own)
            self.classes[kind, what] = cls
        label = cls.__name__
        ev.update(kind=kind, n=enc.name(n), to=to, d=enc.name(d), f=label, fl=str(int(flags)))
        ev["as"] = what
        rg = self.rg if op.get("how") == "kept" else FormatRgy.inst()

        def run():
            if kind == "db":
                rg.addDatabaseFormat(FormatDescDb(cls, n, flags, d) if op.get("how") == "pos" else
                                     FormatDescDb(fmt_if=cls, name=n, flags=flags, description=d))
            else:
                self.stands[enc.name(n)] = what
                rg.addReportFormat(FormatDescRpt(cls, n, flags, d) if op.get("how") == "pos" else
                                   FormatDescRpt(fmt_if=cls, name=n, out_flags=flags, description=d))
        return run

    def op_badfmt(self, op, ev):
        rg = FormatRgy.inst()
        return {"ctor": FormatRgy,
                "db": lambda: rg.getDatabaseDesc(op["n"]),
                "rpt": lambda: rg.getReportDesc(op["n"]),
                "dbif": lambda: FormatIfDb().read("f"),
                "dbcreate": lambda: FormatIfDb().create("f"),
                "rptif": lambda: FormatIfRpt().report(None, io.StringIO(), [])}[op["how"]]

    def registry(self):
        rg = FormatRgy.inst()

        def one(m, n):
            desc = m(n)
            fl = desc.flags if isinstance(desc, FormatDescDb) else desc.out_flags
            return {"n": enc.name(n), "nm": enc.name(desc.name), "d": enc.name(desc.description),
                    "f": getattr(desc.fmt_if, "__name__", repr(desc.fmt_if)), "fl": str(int(fl))}
        return {"db": [one(rg.getDatabaseDesc, n) for n in rg.getDatabaseFormats()],
                "rpt": [one(rg.getReportDesc, n) for n in rg.getReportFormats()],
                "rank": [enc.name(n) for n in self.probe],
                "hasdb": [bool(rg.hasDatabaseFormat(n)) for n in self.probe],
                "hasrpt": [bool(rg.hasReportFormat(n)) for n in self.probe],
                "dd": rg.getDefaultDatabase(), "dr": rg.getDefaultReport(),
                "same": rg is self.rg and FormatRgy.inst() is rg}

    def snapshot(self):
        r = {}
        for root, ds, fs in os.walk(self.dir):
            for x in ds:
                r[os.path.relpath(os.path.join(root, x), self.dir)] = None
            for x in fs:
                p = os.path.join(root, x)
                with open(p, "rb") as fp:
                    r[os.path.relpath(p, self.dir)] = fp.read()
        return r

    def command(self, argv, real=False, ascii=False):
        """the command line: in a child process that has the library loaded, or
        in an interpreter of its own"""
        side = tempfile.mkdtemp(prefix="vcli")
        try:
            fo, fe = os.path.join(side, "out"), os.path.join(side, "err")
            pid = os.fork()
            if pid == 0:
                try:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                    signal.signal(signal.SIGALRM, signal.SIG_DFL)
                    signal.alarm(60)
                    os.chdir(self.dir)
                    a = os.open(fo, os.O_CREAT | os.O_WRONLY)
                    b = os.open(fe, os.O_CREAT | os.O_WRONLY)
                    os.dup2(a, 1)
                    os.dup2(b, 2)
                    if ascii:           # where texts are ASCII unless said otherwise
                        os.environ.update(LC_ALL="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")
                        os.environ.pop("PYTHONIOENCODING", None)
                    if real or ascii:
                        os.execv(sys.executable, [sys.executable, "-m", "ucis"] + argv)
                    sys.stdout = open(1, "w", encoding="utf-8", closefd=False)
                    sys.stderr = open(2, "w", encoding="utf-8", closefd=False)
                    sys.argv = ["ucis"] + argv
                    import runpy
                    code = 0
                    try:
                        runpy.run_module("ucis", run_name="__main__", alter_sys=True)
                    except SystemExit as e:
                        code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
                    except BaseException:
                        traceback.print_exc()
                        code = 1
                    try:
                        sys.stdout.flush()
                        sys.stderr.flush()
                    except BaseException:
                        code = code or 120
                    os._exit(code & 255)
                finally:
                    os._exit(119)
            try:
                _, st = os.waitpid(pid, 0)
            except BaseException:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                raise
            code = os.WEXITSTATUS(st) if os.WIFEXITED(st) else 128 + os.WTERMSIG(st)

            def rd(f):
                with open(f, encoding="utf-8", errors="replace") as fp:
                    return fp.read()
            return code, rd(fo), rd(fe)
        finally:
            shutil.rmtree(side, ignore_errors=True)

    # -- the loop
    NEW = {"new", "merge", "xread", "yread", "nnew", "nopen"}

    def step(self, op):
        kind = op["op"]
        ev = {"op": kind, "ok": True, "h": 0, "new": 0, "obs": []}
        fail = None
        try:
            if "pick" in op:
                op = self.pick(op)
            if "tpath" in op or op.get("dulast"):
                op = self.resolve(op)
            if kind == "new":
                prep = lambda: self.op_new(op, ev)
            else:
                prep = getattr(self, "op_" + kind)(op, ev)
        except Skip:
            if kind in self.NEW:            # handles keep their numbers
                self.dbs.append(None)
                self.ev.append({"op": "skip", "ok": False, "h": 0, "new": len(self.dbs), "obs": []})
            return None
        except Timeout:
            raise
        except BaseException as e:          # reading the state for the operation failed
            fail = e
        res = None
        if fail is None:
            try:
                if op.get("refuse"):
                    self.nat().fail(1)
                    ev["op"] = "refused"
                res = prep()
            except Timeout:
                raise
            except Skip:
                fail = RuntimeError("state changed")
            except BaseException as e:
                fail = e
        if fail is not None:
            ev["ok"] = False
            self.log.append("%d %s: %s" % (len(self.ev) + 1, kind, "".join(
                traceback.format_exception_only(type(fail), fail)).strip()[-400:]))
        if kind in self.NEW:
            if isinstance(res, LibDb):
                self.dbs.append(res if ev["ok"] and hasattr(res.obj, "createNextCover") else None)
            else:
                ok = ev["ok"] and res is not None and hasattr(res, "scopes")
                ev["ok"] = bool(ok)
                self.dbs.append(Db(res, self.props) if ok else None)
            ev["new"] = len(self.dbs)
        if hasattr(self, "_nat"):
            if op.get("refuse"):
                self.nat().fail(0)
            now = self.nat().errors()
            ev["err"] = enc.name(now[self.errlen:])
            self.errlen = len(now)
        self.observe(ev)
        self.ev.append(ev)
        return ev

    def observe(self, ev):
        if self.rg is not None:
            try:
                ev["rg"] = self.registry()
            except Timeout:
                raise
            except Exception as e:
                self.log.append("registry: %r" % e)
                ev.update(op="crash", ok=False)
        for j, d in enumerate(self.dbs):
            if d is None:
                continue
            o = d.project()
            if o != d.last:
                d.last = o
                ev["obs"].append(dict(o, h=j + 1))

    def run(self):
        for op in self.scen["ops"]:
            self.step(op)


def execute(scen, limit=60):
    """the recorded scenario: id, events, log"""
    scratch = tempfile.mkdtemp(prefix="vrun")
    r = Run(scen, scratch)
    tz = os.environ.get("TZ")
    old = signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, limit, 5)
    timeout = False
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            r.run()
    except Timeout:
        timeout = True
        r.log.append("timeout")
        r.ev.append({"op": "timeout", "ok": False, "h": 0, "new": 0, "obs": []})
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        if os.environ.get("TZ") != tz:
            os.environ.pop("TZ", None)
            if tz is not None:
                os.environ["TZ"] = tz
            time.tzset()
        shutil.rmtree(scratch, ignore_errors=True)
    return {"id": scen["id"], "ev": r.ev, "log": r.log, "timeout": timeout}
