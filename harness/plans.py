"""What each check runs.

  clauses   the clauses of the trace specification that state the property
            (a trailing * stands for any ending)
  suites    random scenarios: (suite, number in the quick tier, in the thorough)
  sim       behaviours of the specification, simulated by TLC and replayed:
            (frame, databases, operations, length, quick, thorough)
  all       behaviours of the specification, all of those up to a length, replayed
            (thorough; the quick tier takes the first database from a sample):
            (frame, databases, operations, length, quick sample, thorough sample)
  mc        model checking of the specification:
            (frame, databases, operations, (sample, sample2, states) quick,
             thorough, invariants, action properties)
"""

BUILD = ["new", "inst", "cg", "ci", "cp", "cr", "bin"]
CHANGE = ["hit", "set", "hist", "hset"]
EVERY = BUILD + CHANGE + ["merge", "report", "xwrite", "xread", "yput", "yread", "xput", "oput", "cli"]
NATIVE = BUILD + ["set", "hist", "hset", "nwrite", "nopen"]

PLANS = {
    "C01": dict(
        clauses=["merge:exc", "merge:scopes", "merge:counts"],
        suites=[("merge", 308, 1350), ("mergeiso", 88, 300)],
        sim=[("shapes", 2, ["merge", "hit", "bin", "cp"], 10, 15, 300)],
        all=[("bins", 2, ["merge"], 3, (6, 6), (40, 30)), ("shapes", 2, ["merge"], 3, (5, 4), (30, 20))],
        mc=[("bins", 2, [], (30, 8, 2), (113, 60, 2), ["MergeSums"], []),
            ("shapes", 2, [], (15, 6, 2), (0, 40, 2), ["MergeSums"], []),
            ("insts", 2, [], (15, 6, 2), (0, 40, 2), ["MergeSums"], [])]),
    "C02": dict(
        clauses=["merge:exc", "merge:scopes", "merge:counts", "merge:order", "merge:reuse"],
        suites=[("merge", 352, 1500)],
        sim=[("insts", 2, ["merge", "hit"], 9, 15, 300)],
        all=[("insts", 2, ["merge"], 3, (5, 5), (30, 20))],
        mc=[("insts", 2, [], (20, 6, 2), (0, 40, 2), ["MergeOrder"], []),
            ("shapes", 2, [], (12, 5, 2), (0, 40, 2), ["MergeOrder"], [])]),
    "C03": dict(
        clauses=["merge:exc", "merge:meta", "merge:source", "merge:du"],
        suites=[("merge", 308, 1350)],
        sim=[("shapes", 2, ["merge", "set", "cr", "bin", "cp"], 12, 20, 300)],
        all=[("shapes", 2, ["merge"], 3, (6, 5), (40, 25))],
        mc=[("shapes", 2, [], (15, 6, 2), (0, 40, 2), ["MergeMeta", "CrossesBound"], []),
            ("insts", 2, [], (15, 6, 2), (0, 40, 2), ["MergeMeta"], [])]),
    "C04": dict(
        clauses=["iso:*", "own:*", "hit:tree", "set:tree", "mk:tree", "bin:tree", "merge:exc", "merge:counts",
                 "merge:scopes", "merge:meta", "merge:reuse"],
        suites=[("mergeiso", 264, 1350), ("merge", 88, 300)],
        sim=[("shapes", 2, ["merge", "hit", "set", "bin", "cp", "ci"], 14, 25, 400)],
        all=[("insts", 2, ["merge", "hit", "set"], 4, (1, 2), (8, 6))],
        mc=[("insts", 2, ["merge", "hit", "set"], (12, 4, 3), (8, 3, 4), [], ["Isolation"]),
            ("shapes", 2, ["merge", "hit", "set", "bin"], (5, 2, 3), (20, 8, 3), [], ["Isolation"])]),
    "C05": dict(
        clauses=["rep:cov", "rep:exc"],
        suites=[("report", 352, 1800), ("mono", 44, 150), ("big", 26, 120)],
        sim=[("weights", 1, ["report", "hit", "set", "bin", "ci", "cp"], 14, 20, 300)],
        all=[("weights", 1, ["report"], 2, (60, 0), (600, 0))],
        mc=[("weights", 1, ["hit", "set"], (40, 0, 2), (0, 0, 2), ["InRange", "CovShares"], [])]),
    "C06": dict(
        clauses=["rep:shape", "rep:maps", "rep:exc"],
        suites=[("report", 352, 1800)],
        sim=[("shapes", 1, ["report", "hit", "set", "bin", "ci", "cp", "cr", "cg", "inst"], 14, 20, 300)],
        all=[("shapes", 1, ["report"], 2, (60, 0), (0, 0)), ("insts", 1, ["report"], 2, (60, 0), (0, 0))],
        mc=[("shapes", 1, BUILD, (0, 0, 2), (0, 0, 2), ["Mirrors"], []),
            ("insts", 1, BUILD, (0, 0, 2), (40, 0, 3), ["Mirrors"], [])]),
    "C07": dict(
        clauses=["rep:range", "rep:full", "rep:mono", "rep:exc", "iso:report", "iso:json", "iso:text",
                 "report:again", "json:again", "text:again"],
        suites=[("mono", 176, 750), ("report", 132, 600), ("text", 44, 150), ("json", 44, 150), ("big", 44, 150)],
        sim=[("weights", 1, ["report", "hit"], 20, 20, 300)],
        all=[("weights", 1, ["report", "hit"], 4, (1, 0), (8, 0))],
        mc=[("weights", 1, ["hit"], (60, 0, 3), (0, 0, 3), ["InRange"], ["Monotone", "OneCount"])]),
    "C08": dict(
        clauses=["yread:inst", "yread:exc", "yread:hist"],
        suites=[("yread", 396, 1950)],
        sim=[("shapes", 1, ["yput", "yread", "bin", "cr", "cp", "ci", "hit"], 16, 20, 300)],
        all=[("shapes", 1, ["yput", "yread"], 3, (25, 0), (0, 0))],
        mc=[("shapes", 1, BUILD, (0, 0, 2), (0, 0, 2), ["YamlInst"], []),
            ("bins", 1, BUILD, (0, 0, 2), (60, 0, 3), ["YamlInst"], [])]),
    "C09": dict(
        clauses=["yread:type", "yread:typeal", "yread:exc", "yread:tree", "own:yread"],
        suites=[("yread", 396, 1950)],
        sim=[("shapes", 1, ["yput", "yread", "bin", "cr", "cp", "ci", "hit"], 16, 20, 300)],
        all=[("shapes", 1, ["yput", "yread"], 3, (25, 0), (0, 0))],
        mc=[("shapes", 1, BUILD, (0, 0, 2), (0, 0, 2), ["YamlType"], []),
            ("bins", 1, BUILD, (0, 0, 2), (60, 0, 3), ["YamlType"], [])]),
    "C10": dict(
        clauses=["yread:exc", "yread:accepted", "yread:tree", "yread:inst", "yread:type", "iso:yread"],
        suites=[("ybad", 264, 1200), ("yread", 176, 750)],
        sim=[("shapes", 1, ["yput", "yread", "oput", "cr", "ci"], 14, 20, 300)],
        all=[("shapes", 1, ["yput", "yread", "oput"], 3, (12, 0), (100, 0))],
        mc=[("shapes", 1, ["yput", "oput", "cr"], (60, 0, 3), (0, 0, 3), ["Refuses"], [])]),
    "C11": dict(
        clauses=["rt:tree", "rt:order", "rt:exc", "xwrite:exc", "xwrite:parse", "xread:exc", "rep:cov", "xread:tree", "own:xread"],
        suites=[("rt", 308, 1500)],
        sim=[("shapes", 1, ["xwrite", "xread", "bin", "set", "cr", "cp", "ci", "report"], 16, 20, 300)],
        all=[("shapes", 1, ["xwrite", "xread"], 3, (25, 0), (0, 0)),
             ("insts", 1, ["xwrite", "xread"], 3, (25, 0), (0, 0))],
        mc=[("shapes", 1, BUILD + ["set"], (50, 0, 2), (0, 0, 2), ["RoundTrip"], []),
            ("insts", 1, BUILD, (50, 0, 2), (0, 0, 2), ["RoundTrip"], [])]),
    "C12": dict(
        clauses=["xread:type", "xread:exc", "xread:tree"],
        suites=[("xread", 308, 1500), ("rt", 66, 300)],
        sim=[("shapes", 1, ["xput", "xwrite", "xread", "bin", "set", "cr", "cp", "ci", "cg"], 16, 20, 300)],
        all=[("shapes", 1, ["xwrite", "xread"], 3, (25, 0), (0, 0))],
        mc=[("shapes", 1, BUILD, (0, 0, 2), (0, 0, 2), ["TypeUnion"], []),
            ("insts", 1, BUILD, (0, 0, 2), (40, 0, 3), ["TypeUnion"], [])]),
    "C13": dict(
        clauses=["xwrite:*", "iso:xwrite"],
        suites=[("xwrite", 352, 1800)],
        sim=[("shapes", 1, ["xwrite", "bin", "set", "cr", "cp", "ci", "cg", "inst", "hist"], 16, 20, 300)],
        all=[("shapes", 1, ["xwrite"], 2, (50, 0), (0, 0)), ("insts", 1, ["xwrite"], 2, (50, 0), (0, 0))],
        mc=[("shapes", 1, BUILD, (0, 0, 2), (0, 0, 2), ["WriteSays"], []),
            ("insts", 1, BUILD, (0, 0, 2), (40, 0, 3), ["WriteSays"], [])]),
    "C14": dict(
        clauses=["rt:hist", "rt:exc", "xwrite:hist", "xwrite:ids", "xread:hist", "hist:sel", "xwrite:exc", "xwrite:parse", "xread:exc"],
        suites=[("histrt", 352, 1800)],
        sim=[("insts", 1, ["hist", "hset", "xwrite", "xread"], 16, 20, 300)],
        all=[("insts", 1, ["hist", "xwrite", "xread"], 4, (3, 0), (20, 0))],
        mc=[("insts", 1, ["hist", "hset", "xwrite", "xread"], (10, 0, 4), (40, 0, 5), ["HistTrip"], [])]),
    "C15": dict(
        clauses=["xread:exc", "xread:accepted", "xread:inst", "xread:tree", "xread:hist", "iso:xread", "xvalid:*", "iso:xvalid"],
        suites=[("xread", 264, 1200), ("xbad", 264, 1200)],
        sim=[("shapes", 1, ["xput", "xwrite", "xread", "oput", "yput", "cr", "ci"], 14, 15, 300)],
        all=[("shapes", 1, ["xput", "xread", "oput"], 3, (12, 0), (100, 0))],
        mc=[("shapes", 1, ["xput", "xwrite", "oput"], (60, 0, 3), (0, 0, 3), ["RefusesXml"], [])]),
    "C16": dict(
        clauses=["new:*", "mk:*", "bin:*", "build:*", "iter:*", "fh:*", "iso:mk", "iso:bin", "iso:build", "iso:new"],
        suites=[("mem", 440, 2250)],
        sim=[("empty", 0, BUILD, 25, 30, 400), ("insts", 2, BUILD, 20, 20, 300)],
        all=[("insts", 1, BUILD, 2, (2, 0), (20, 0))],
        mc=[("shapes", 1, BUILD, (40, 0, 2), (0, 0, 2), ["TypeOK"], ["Created", "Isolation"]),
            ("empty", 0, BUILD, (0, 0, 5), (0, 0, 6), ["TypeOK"], ["Created", "Isolation"])]),
    "C17": dict(
        clauses=["hit:*", "iso:*", "merge:counts"],
        suites=[("hits", 352, 1800)],
        sim=[("bins", 2, ["hit", "merge", "set", "report", "xwrite", "xread"], 25, 25, 400)],
        all=[("bins", 2, ["hit"], 4, (4, 4), (20, 20))],
        mc=[("bins", 2, ["hit", "merge", "set"], (12, 4, 4), (60, 8, 4), ["TypeOK"], ["OneCount", "Isolation"])]),
    "C18": dict(
        clauses=["set:*", "props:agree", "iso:set"],
        suites=[("props", 396, 1950)],
        sim=[("shapes", 1, ["set", "hit", "cp", "cg", "ci"], 16, 20, 300)],
        all=[("shapes", 1, ["set"], 3, (2, 0), (10, 0))],
        mc=[("shapes", 1, ["set", "hit"], (30, 0, 3), (0, 0, 3), [], ["OneWeight", "Isolation"])]),
    "C19": dict(
        clauses=["hist:*", "hset:*", "iso:hist", "iso:hset"],
        suites=[("hist", 396, 1950)],
        sim=[("insts", 2, ["hist", "hset"], 16, 20, 300)],
        all=[("insts", 2, ["hist"], 4, (2, 2), (8, 8))],
        mc=[("insts", 2, ["hist", "hset"], (6, 3, 5), (12, 5, 6), [], ["OneNode"])]),
    "C20": dict(
        clauses=["json:*", "iso:json"],
        suites=[("json", 396, 1950), ("big", 22, 120)],
        sim=[("weights", 1, ["report", "hit", "set", "bin", "ci", "cp"], 16, 15, 300)],
        all=[("shapes", 1, ["report"], 2, (50, 0), (0, 0))],
        mc=[("shapes", 1, BUILD, (0, 0, 2), (0, 0, 2), ["Mirrors"], []),
            ("weights", 1, ["hit"], (40, 0, 2), (0, 0, 2), ["InRange"], [])]),
    "C21": dict(
        clauses=["text:*", "iso:text"],
        suites=[("text", 396, 1950), ("big", 26, 120)],
        sim=[("weights", 1, ["report", "hit", "set", "bin", "ci", "cp"], 16, 15, 300)],
        all=[("shapes", 1, ["report"], 2, (50, 0), (0, 0))],
        mc=[("shapes", 1, BUILD, (0, 0, 2), (0, 0, 2), ["Mirrors"], []),
            ("weights", 1, ["hit"], (40, 0, 2), (0, 0, 2), ["InRange"], [])]),
    "C22": dict(
        clauses=["cli:exit", "cli:files", "cli:doc", "cli:schema", "cli:pct"],
        suites=[("cliwrite", 308, 1350)],
        sim=[("shapes", 2, ["xput", "xwrite", "yput", "cli", "hit"], 12, 20, 300)],
        all=[("shapes", 1, ["xwrite", "yput", "cli"], 3, (1, 0), (6, 0))],
        mc=[("shapes", 1, ["xwrite", "yput", "cli", "xread"], (6, 0, 3), (40, 0, 3), ["CmdFaithful"], ["FilesKept"])]),
    "C23": dict(
        clauses=["cli:exit", "cli:files", "cli:report", "cli:list"],
        suites=[("clireport", 308, 1350)],
        sim=[("weights", 1, ["xput", "xwrite", "yput", "cli", "hit"], 12, 20, 300)],
        all=[("shapes", 1, ["xwrite", "yput", "cli"], 3, (1, 0), (6, 0))],
        mc=[("shapes", 1, ["xwrite", "yput", "cli"], (6, 0, 3), (40, 0, 3), ["CmdReport"], ["FilesKept"])]),
    "C24": dict(
        clauses=["cli:bad*", "cli:exit", "cli:files"],
        suites=[("clibad", 308, 1350), ("cliwrite", 66, 300)],
        sim=[("shapes", 2, ["xput", "xwrite", "yput", "oput", "cli"], 12, 20, 300)],
        all=[("shapes", 1, ["xwrite", "oput", "cli"], 3, (1, 0), (6, 0))],
        mc=[("shapes", 1, ["xput", "xwrite", "yput", "oput", "cli"], (6, 0, 3), (40, 0, 3), ["CmdSafe"], ["FilesKept"])]),
    "C25": dict(
        clauses=["iso:*", "own:*", "hit:tree", "set:tree", "mk:tree", "bin:tree", "build:tree", "merge:counts", "merge:scopes",
                 "merge:meta", "merge:reuse", "xread:tree", "yread:tree", "xwrite:doc", "rep:shape", "json:shape", "text:lines",
                 "fh:shared"],
        suites=[("iso", 308, 1500)],
        sim=[("shapes", 2, EVERY, 30, 30, 500), ("insts", 2, EVERY, 30, 20, 400)],
        all=[("insts", 2, ["hit", "set", "merge", "xwrite", "xread"], 4, (1, 1), (4, 4))],
        mc=[("insts", 2, EVERY, (4, 2, 3), (12, 4, 4), [], ["Isolation", "FilesKept"])]),
    "C26": dict(
        native=True,
        clauses=["new:*", "mk:*", "bin:*", "set:*", "nbset:*", "hist:*", "hset:*", "nfh:*", "niter:*", "nhiter:*",
                 "nwrite:*", "nopen:*", "nclose:*", "native:*", "iso:*"],
        suites=[("native", 440, 2250)],
        sim=[("insts", 2, NATIVE, 20, 20, 300), ("shapes", 1, NATIVE, 20, 20, 300)],
        all=[("insts", 1, ["bin", "set", "nwrite", "nopen"], 4, (1, 0), (6, 0))],
        mc=[("insts", 1, ["bin", "set", "hist", "nwrite", "nopen"], (8, 0, 3), (6, 0, 4), [],
             ["Opened", "Isolation", "FilesKept"]),
            ("empty", 0, BUILD, (0, 0, 5), (0, 0, 6), ["TypeOK"], ["Created", "Isolation"])]),
    "C27": dict(
        clauses=["item:*", "record:*", "set:*", "props:agree", "iso:item", "iso:record", "iso:set", "iso:baditem",
                 "mk:tree", "hit:tree", "iso:mk"],
        suites=[("attrs", 396, 1950)],
        sim=[("insts", 2, ["item", "setitem", "record", "set", "hit", "inst"], 20, 25, 300)],
        all=[("insts", 1, ["item", "setitem", "record"], 4, (2, 0), (10, 0))],
        mc=[("insts", 2, ["item", "setitem", "record"], (6, 3, 5), (20, 5, 5), [], ["OneExtra", "Isolation"])]),
    "C28": dict(
        clauses=["fmt:*", "cli:*"],
        suites=[("fmts", 396, 1800)],
        sim=[("shapes", 1, ["xwrite", "yput", "fmt", "cli", "oput"], 16, 30, 400)],
        all=[("shapes", 1, ["yput", "fmt", "cli"], 3, (1, 0), (6, 0))],
        mc=[("shapes", 1, ["yput", "xwrite", "fmt", "cli"], (1, 0, 3), (6, 0, 4), ["FmtUsed"], ["FmtLast", "FilesKept"])]),
}
# a scenario that does not end, or kills the process, breaks whatever it is about
ALWAYS = ["any:timeout", "any:crash"]
