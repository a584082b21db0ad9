-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Validation of behaviours recorded from the implementation.               *)
(*                                                                          *)
(* The file TRACE holds one scenario per line: a sequence of events, each   *)
(* an operation with its arguments, its outcome, and the databases that it  *)
(* changed or created (a database that is not listed was observed to be the *)
(* same as before).  The state of this specification is the state observed  *)
(* so far; every event has to be a transition that the specification (Cov)  *)
(* allows.  An event that is not is reported with the clauses it breaks,    *)
(* and the validation goes on from the state observed.                      *)
(***************************************************************************)
EXTENDS Files, Json, IOUtils

Scen == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, i, st
vars == <<s, i, st>>

\* Conditional failure
If(c, name) == IF c THEN {name} ELSE {}
Not(c, name) == IF c THEN {} ELSE {name}

---------------------------------------------------------------------------
(* The databases observed *)

Obs(ev)       == ev.obs
Listed(ev, h) == \E j \in 1..Len(ev.obs) : ev.obs[j].h = h
ObsOf(ev, h)  == ev.obs[CHOOSE j \in 1..Len(ev.obs) : ev.obs[j].h = h]

Tree(h)  == st.dbs[h].tree
Hist(h)  == st.dbs[h].hist
NTree(ev, h) == IF Listed(ev, h) THEN ObsOf(ev, h).tree ELSE Tree(h)
NHist(ev, h) == IF Listed(ev, h) THEN ObsOf(ev, h).hist ELSE Hist(h)

\* cov: the percentages of the last report; fh: the file handles created;
\* reps: the reports made since the last change
Empty == [tree |-> Root, hist |-> <<>>, cov |-> <<>>, fh |-> <<>>, reps |-> <<>>]

\* operations that change what a report shows other than by hits
Structural(op) == op \in {"mk", "bin", "build", "set", "new", "merge", "xread", "yread"}

NextDbs(ev) ==
    LET grown == IF ev.new > Len(st.dbs) THEN Append(st.dbs, Empty) ELSE st.dbs
    IN  Tup([h \in 1..Len(grown) |->
           IF Listed(ev, h)
           THEN [grown[h] EXCEPT !.tree = ObsOf(ev, h).tree, !.hist = ObsOf(ev, h).hist,
                                 !.cov  = IF Structural(ev.op) THEN <<>> ELSE @, !.reps = <<>>]
           ELSE grown[h]])

\* nothing else changed
Iso(ev) == If(\E j \in 1..Len(ev.obs) : ev.obs[j].h \notin {ev.h, ev.new}, "iso:" \o ev.op)

\* the selection of history nodes by kind is right, and databases are trees
SelOk(ev) ==
    If(\E j \in 1..Len(ev.obs) :
         LET o == ev.obs[j]
         IN  \/ o.sel.all # Tup([k \in 1..Len(o.hist) |-> k])
             \/ o.sel.test # SelectSeq(Tup([k \in 1..Len(o.hist) |-> k]),
                                       LAMBDA k : o.hist[k].kind = "1")
             \/ o.sel.merge # SelectSeq(Tup([k \in 1..Len(o.hist) |-> k]),
                                        LAMBDA k : o.hist[k].kind = "2"),
       "hist:sel")

\* what an instance refers to is in its own database
Own(ev) == If(\E j \in 1..Len(ev.obs) : ~ev.obs[j].own, "own:" \o ev.op)

---------------------------------------------------------------------------
(* Creation, hits, properties *)

PropsAt(nd, path) == IF HasPath(nd, path) THEN At(nd, path).p ELSE <<>>

MkFails(ev) ==
    LET pos  == Len(At(Tree(ev.h), ev.path).kids) + 1
        want == AddKid(Tree(ev.h), ev.path,
                       [ev.node EXCEPT !.p = PropsAt(NTree(ev, ev.h), Append(ev.path, pos))])
    IN  IF ~ev.ok THEN {"mk:exc"}
        ELSE IF ~HasPath(Tree(ev.h), ev.path) THEN {"mk:path"}
        ELSE Not(NTree(ev, ev.h) = want, "mk:tree") \cup Not(ev.ret = pos, "mk:ret")
             \cup Not(NHist(ev, ev.h) = Hist(ev.h), "mk:hist")

\* a bin, with its source information and the data that only the bin itself keeps
AddBinX(db, path, b, x) ==
    LET nd == At(db, path) IN PutAt(db, path, [nd EXCEPT !.bins = Append(@, b), !.bx = Append(@, x)])

BinFails(ev) ==
    IF ~ev.ok THEN {"bin:exc"}
    ELSE IF ~HasPath(Tree(ev.h), ev.path) THEN {"bin:path"}
    ELSE Not(NTree(ev, ev.h) = AddBinX(Tree(ev.h), ev.path, ev.bin, ev.bx), "bin:tree")
         \cup Not(NHist(ev, ev.h) = Hist(ev.h), "bin:hist")

\* several creations in a row
RECURSIVE BuildI(_, _, _)
BuildI(t, steps, j) ==
    IF j > Len(steps) THEN t
    ELSE LET x == steps[j]
         IN  IF ~HasPath(t, x.path) THEN t
             ELSE BuildI(IF x.op = "mk" THEN AddKid(t, x.path, x.node)
                         ELSE AddBinX(t, x.path, x.bin, x.bx), steps, j + 1)
RECURSIVE NoProps(_)
NoProps(nd) == [nd EXCEPT !.p = <<>>, !.kids = Tup([j \in 1..Len(nd.kids) |-> NoProps(nd.kids[j])])]
BuildFails(ev) ==
    IF ~ev.ok THEN {"build:exc"}
    ELSE Not(NoProps(NTree(ev, ev.h)) = NoProps(BuildI(Tree(ev.h), ev.steps, 1)), "build:tree")
         \cup Not(NHist(ev, ev.h) = Hist(ev.h), "build:hist")

HitFails(ev) ==
    IF ~ev.ok THEN {"hit:exc"}
    ELSE IF ~HasPath(Tree(ev.h), ev.path) THEN {"hit:path"}
    ELSE IF ev.i \notin 1..Len(At(Tree(ev.h), ev.path).bins) THEN {"hit:path"}
    ELSE Not(NTree(ev, ev.h) = HitBin(Tree(ev.h), ev.path, ev.i, ev.amt), "hit:tree")
         \cup Not(NHist(ev, ev.h) = Hist(ev.h), "hit:hist")

SetFails(ev) ==
    LET nd   == At(Tree(ev.h), ev.path)
        nd1  == SetProp(nd, ev.k, ev.v)
        nd2  == IF ev.k = "weight" THEN [nd1 EXCEPT !.w = ev.w] ELSE nd1
    IN  IF ~ev.ok THEN {"set:exc"}
        ELSE IF ~HasPath(Tree(ev.h), ev.path) THEN {"set:path"}
        ELSE Not(NTree(ev, ev.h) = PutAt(Tree(ev.h), ev.path, nd2), "set:tree")
             \cup Not(NHist(ev, ev.h) = Hist(ev.h), "set:hist")

ItemFails(ev) ==
    IF ~ev.ok THEN {"item:exc"}
    ELSE IF ~HasPath(Tree(ev.h), ev.path) THEN {"item:path"}
    ELSE LET nd == At(Tree(ev.h), ev.path)
         IN  Not(NTree(ev, ev.h) = PutAt(Tree(ev.h), ev.path, AddP(nd, "item", "n:0")), "item:tree")
             \cup Not(ev.ret = Count(nd.p, "item"), "item:ret")
             \cup Not(NHist(ev, ev.h) = Hist(ev.h), "item:hist")
RecordFails(ev) ==
    IF ~ev.ok THEN {"record:exc"}
    ELSE Not(NTree(ev, ev.h) = AddP(Tree(ev.h), "rec", ev.v), "record:tree")
         \cup Not(ev.got = ev.v, "record:got")
         \cup Not(NHist(ev, ev.h) = Hist(ev.h), "record:hist")

\* both interfaces agree on every property that is seen
RECURSIVE PropsAgree(_)
PropsAgree(nd) == /\ \A j \in 1..Len(nd.p) : nd.p[j].o = nd.p[j].c
                  /\ \A j \in 1..Len(nd.kids) : PropsAgree(nd.kids[j])
Agree(ev) == If(\E j \in 1..Len(ev.obs) : ~PropsAgree(ev.obs[j].tree), "props:agree")

\* iteration with masks: positions of the children, or bins, of the types asked for
Positions(seq, test(_)) == SelectSeq(Tup([k \in 1..Len(seq) |-> k]), LAMBDA k : test(seq[k]))
IterWant(q) ==
    IF ~HasPath(Tree(q.h), q.path) THEN <<0>>
    ELSE LET nd == At(Tree(q.h), q.path)
         IN  IF q.what = "scopes"
             THEN Positions(nd.kids, LAMBDA x : \E k \in 1..Len(q.mask) : q.mask[k] = x.t)
             ELSE Positions(nd.bins, LAMBDA x : \E k \in 1..Len(q.mask) : q.mask[k] = x.k)
IterFails(ev) ==
    IF ~ev.ok THEN {"iter:exc"}
    ELSE If(\E k \in 1..Len(ev.qs) : ev.qs[k].got # IterWant(ev.qs[k]), "iter:mask")

\* file handles: one per name; ids are those of the objects returned
FhFails(ev) ==
    LET old == st.dbs[ev.of].fh
    IN  IF ~ev.ok THEN {"fh:exc"}
        ELSE Not(ev.got = ev.n, "fh:name")
             \cup If(\E k \in 1..Len(old) : (old[k].n = ev.n) # (old[k].id = ev.id), "fh:shared")

---------------------------------------------------------------------------
(* History nodes *)

HSetF(f, k, v) == Tup([j \in 1..Len(f) |-> IF f[j].k = k THEN [k |-> k, v |-> v] ELSE f[j]])

RECURSIVE HSetAll(_, _, _)
HSetAll(f, kv, j) == IF j > Len(kv) THEN f
                     ELSE HSetAll(HSetF(f, kv[j].k, kv[j].v), kv, j + 1)

FieldsOf(hs, n) == IF n \in 1..Len(hs) THEN hs[n].f ELSE <<>>

HistFails(ev) ==
    LET n    == Len(Hist(ev.h)) + 1
        want == Append(Hist(ev.h), [par |-> ev.par, log |-> ev.log, phys |-> ev.phys,
                                    kind |-> ev.kind, f |-> FieldsOf(NHist(ev, ev.h), n)])
    IN  IF ~ev.ok THEN {"hist:exc"}
        ELSE Not(NHist(ev, ev.h) = want, "hist:nodes")
             \cup Not(NTree(ev, ev.h) = Tree(ev.h), "hist:tree")

\* fields set, one by one or together; the status is also seen as passed or not
HSetFails(ev) ==
    LET want == [Hist(ev.h) EXCEPT ![ev.node].f = HSetAll(@, ev.kv, 1)]
    IN  IF ~ev.ok THEN {"hset:exc"}
        ELSE IF ev.node \notin 1..Len(Hist(ev.h)) THEN {"hset:path"}
        ELSE Not(NHist(ev, ev.h) = want, "hset:nodes")
             \cup Not(NTree(ev, ev.h) = Tree(ev.h), "hset:tree")

---------------------------------------------------------------------------
(* Merging *)

\* the design unit of an instance is described as in the first source that has the instance
Units(db, n) == {<<db.kids[k].w, db.kids[k].src, db.kids[k].loc>> : k \in {j \in 1..Len(db.kids) :
                    db.kids[j].n = n /\ db.kids[j].t \in {"DU", "DU2", "DU3", "DU4", "DU5"}}}
UnitOk(inst, got, srcs) ==
    LET first == CHOOSE k \in 1..Len(srcs) :
                   /\ IndexName(Insts(srcs[k]), inst.n) # 0
                   /\ \A j \in 1..(k - 1) : IndexName(Insts(srcs[j]), inst.n) = 0
    IN  Units(got, inst.du) \cap Units(srcs[first], inst.du) # {}

MergeFails(ev) ==
    LET srcs == Tup([k \in 1..Len(ev.srcs) |-> Tree(ev.srcs[k])])
        want == MergeDb(srcs)
    IN  IF ~Mergeable(srcs)
        THEN If(ev.ok, "merge:accepted")
        ELSE IF ~ev.ok THEN {"merge:exc"}
        ELSE LET got == ObsOf(ev, ev.new).tree
             IN  Not(/\ Scopes(got) = Scopes(want)
                     /\ Len(FlatScopes(got)) = Cardinality(Scopes(want)), "merge:scopes")
                 \cup Not(/\ Counts(got) = Counts(want)
                          /\ Len(FlatBins(got)) = Cardinality(Counts(want)), "merge:counts")
                 \cup Not(CanonDb(got) = CanonDb(want), "merge:meta")
                 \cup Not(Sources(got) = Sources(want), "merge:source")
                 \cup Not(\A k \in 1..Len(want.kids) : UnitOk(want.kids[k], got, srcs), "merge:du")
                 \* a merger that was used before does what a new one does
                 \cup (IF ev.fresh = <<>> THEN {} ELSE Not(got = ev.fresh[1], "merge:reuse"))
                 \cup (IF ev.like = 0 THEN {}
                       ELSE Not(/\ Scopes(got) = Scopes(Tree(ev.like))
                                /\ Counts(got) = Counts(Tree(ev.like))
                                /\ Len(FlatBins(got)) = Len(FlatBins(Tree(ev.like))), "merge:order"))

---------------------------------------------------------------------------
(* Reports *)

E9  == <<0, 0, 10>>             \* 10^9
Tol == <<5>>                    \* 5 * 10^-9 per cent

\* a percentage observed, times 10^9, against the one expected
Near(c9, r) == BNear(BMul(c9, r.d), BMul(r.n, E9), BMul(Tol, r.d))

Each(e, o, P(_, _)) == Len(e) = Len(o) /\ \A k \in 1..Len(e) : P(e[k], o[k])

ShapeItem(e, o, kinds) == /\ e.n = o.n /\ e.w = o.w /\ e.bins = o.bins
                          /\ (kinds => e.ign = o.ign /\ e.ill = o.ill)
RECURSIVE ShapeCg(_, _)
ShapeCg(e, o) == /\ e.n = o.n /\ e.w = o.w
                 /\ Each(e.cps, o.cps, LAMBDA x, y : ShapeItem(x, y, TRUE))
                 /\ Each(e.crs, o.crs, LAMBDA x, y : ShapeItem(x, y, FALSE))
                 /\ Each(e.cgs, o.cgs, ShapeCg)
Shape(e, o) == Each(e.cgs, o.cgs, ShapeCg)

RECURSIVE CovCg(_, _)
CovCg(e, o) == /\ Near(o.cov, e.cov)
               /\ Each(e.cps, o.cps, LAMBDA x, y : Near(y.cov, x.cov))
               /\ Each(e.crs, o.crs, LAMBDA x, y : Near(y.cov, x.cov))
               /\ Each(e.cgs, o.cgs, CovCg)
CovsOk(e, o) == Near(o.cov, e.cov) /\ Each(e.cgs, o.cgs, CovCg)

\* by-name maps: entries [k |-> name, at |-> position in the list, 0 if none]
MapOk(m, list) ==
    /\ {m[k].k : k \in 1..Len(m)} = {list[k].n : k \in 1..Len(list)}
    /\ \A k \in 1..Len(m) : m[k].at \in 1..Len(list) /\ list[m[k].at].n = m[k].k
RECURSIVE MapsCg(_)
MapsCg(o) == /\ MapOk(o.cpm, o.cps) /\ MapOk(o.crm, o.crs) /\ MapOk(o.cgm, o.cgs)
             /\ \A k \in 1..Len(o.cgs) : MapsCg(o.cgs[k])
MapsOk(o) == MapOk(o.cgm, o.cgs) /\ \A k \in 1..Len(o.cgs) : MapsCg(o.cgs[k])

RECURSIVE ListCg(_)
ListCg(o) == <<o.cov>> \o Tup([k \in 1..Len(o.cps) |-> o.cps[k].cov])
                       \o Tup([k \in 1..Len(o.crs) |-> o.crs[k].cov])
                       \o Cat(Tup([k \in 1..Len(o.cgs) |-> ListCg(o.cgs[k])]))
CovList(o) == <<o.cov>> \o Cat(Tup([k \in 1..Len(o.cgs) |-> ListCg(o.cgs[k])]))

Hundred9 == BMul(Pct, E9)

\* everything that counts is covered
AllCovered(e) ==
    \A k \in 1..Len(e.cgs) : e.cgs[k].w # BZero =>
       /\ \A j \in 1..Len(e.cgs[k].cps) :
            e.cgs[k].cps[j].w # BZero =>
              \A b \in 1..Len(e.cgs[k].cps[j].bins) : e.cgs[k].cps[j].bins[b].h
       /\ \A j \in 1..Len(e.cgs[k].crs) :
            e.cgs[k].crs[j].w # BZero =>
              \A b \in 1..Len(e.cgs[k].crs[j].bins) : e.cgs[k].crs[j].bins[b].h

RangeFails(e, o) ==
    LET cl == CovList(o)
    IN  If(\E k \in 1..Len(cl) : BLt(Hundred9, cl[k]), "rep:range")
        \* (a share that is lost in the precision of the percentage does not count)
        \cup If(/\ o.cov = Hundred9 /\ ~AllCovered(e)
                /\ ~BNear(BMul(Hundred9, e.cov.d), BMul(e.cov.n, E9), BMul(<<2>>, e.cov.d)),
                "rep:full")

\* the same report of the same data is the same
RepKey(ev) == IF ev.op # "text" THEN <<ev.op>> ELSE <<ev.op, ev.det, ev.order, ev.tolg, ev.toli>>
RepVal(ev) == IF ev.op = "text" THEN ev.lines ELSE ev.rep
Again(ev) ==
    LET rs == st.dbs[ev.of].reps
    IN  If(\E k \in 1..Len(rs) : rs[k][1] = RepKey(ev) /\ ~(ev.ok /\ rs[k][2] = RepVal(ev)), ev.op \o ":again")

ReportFails(ev) ==
    IF ~ev.ok THEN {"rep:exc"}
    ELSE LET e == ReportOf(Tree(ev.of))
             o == ev.rep
             last == st.dbs[ev.of].cov
             now  == CovList(o)
         IN  Not(Shape(e, o), "rep:shape")
             \cup Not(CovsOk(e, o), "rep:cov")
             \cup Not(MapsOk(o), "rep:maps")
             \cup RangeFails(e, o)
             \cup If(/\ last # <<>>
                     /\ \/ Len(last) # Len(now)
                        \/ \E k \in 1..Len(now) : ~BLeq(last[k], BAdd(now[k], <<2>>)), "rep:mono")

\* JSON: what the report holds, without weights
JBin(b) == [n |-> b.n, g |-> b.g, c |-> b.c]
JShapeItem(e, o, kinds) == /\ e.n = o.n /\ Map(JBin, e.bins) = o.bins
                           /\ (kinds => Map(JBin, e.ign) = o.ign /\ Map(JBin, e.ill) = o.ill)
RECURSIVE JShapeCg(_, _)
JShapeCg(e, o) == /\ e.n = o.n
                  /\ Each(e.cps, o.cps, LAMBDA x, y : JShapeItem(x, y, TRUE))
                  /\ Each(e.crs, o.crs, LAMBDA x, y : JShapeItem(x, y, FALSE))
                  /\ Each(e.cgs, o.cgs, JShapeCg)
JsonOk(e, o) == Each(e.cgs, o.cgs, JShapeCg) /\ CovsOk(e, o)

JsonFails(ev) ==
    IF ~ev.ok THEN {"json:exc"}
    ELSE LET e == ReportOf(Tree(ev.of))
         IN  Not(Each(e.cgs, ev.rep.cgs, JShapeCg), "json:shape")
             \cup Not(CovsOk(e, ev.rep), "json:cov")

\* text: lines [d |-> depth, k |-> kind, n |-> name, c |-> count, cov |-> percentage]
TLine(d, k, n, c, cov) == [d |-> d, k |-> k, n |-> n, c |-> c, cov |-> cov]

BinLines(bins, d, order) ==
    LET seq == IF order THEN SelectSeq(bins, LAMBDA b : b.h) \o SelectSeq(bins, LAMBDA b : ~b.h)
               ELSE bins
    IN  Tup([k \in 1..Len(seq) |-> TLine(d, "B", seq[k].n, seq[k].c, RatZero)])
Section(name, bins, d, order, always) ==
    IF bins = <<>> /\ ~always THEN <<>>
    ELSE <<TLine(d, "H", name, BZero, RatZero)>> \o BinLines(bins, d + 1, order)

CpLines(e, k, d, det, order) ==
    <<TLine(d, k, e.n, BZero, e.cov)>>
    \o (IF ~det THEN <<>>
        ELSE Section("Bins:", e.bins, d, order, TRUE)
             \o (IF k = "CVP" THEN Section("IgnoreBins:", e.ign, d, order, FALSE)
                                   \o Section("IllegalBins:", e.ill, d, order, FALSE)
                 ELSE <<>>))
RECURSIVE CgLines(_, _, _, _, _)
CgLines(e, k, d, det, order) ==
    <<TLine(d, k, e.n, BZero, e.cov)>>
    \o Cat(Tup([j \in 1..Len(e.cps) |-> CpLines(e.cps[j], "CVP", d + 1, det, order)]))
    \o Cat(Tup([j \in 1..Len(e.crs) |-> CpLines(e.crs[j], "CROSS", d + 1, det, order)]))
    \o Cat(Tup([j \in 1..Len(e.cgs) |-> CgLines(e.cgs[j], "INST", d + 1, det, order)]))
TextLines(e, det, order) ==
    Cat(Tup([j \in 1..Len(e.cgs) |-> CgLines(e.cgs[j], "TYPE", 0, det, order)]))

\* half a unit of the last digit shown, in 10^-9 per cent (and a little more)
LineOk(e, o, tolg, toli) ==
    /\ e.d = o.d /\ e.k = o.k /\ e.n = o.n /\ e.c = o.c
    /\ e.k \in {"H", "B"}
       \/ LET t == IF e.k \in {"TYPE", "INST"} THEN tolg ELSE toli
          IN  BNear(BMul(o.cov, e.cov.d), BMul(e.cov.n, E9), BMul(t, e.cov.d))
LinesOk(e, ev) == Each(TextLines(e, ev.det, ev.order), ev.lines,
                       LAMBDA x, y : LineOk(x, y, ev.tolg, ev.toli))
TextFails(ev) ==
    IF ~ev.ok THEN {"text:exc"}
    ELSE Not(LinesOk(ReportOf(Tree(ev.of)), ev), "text:lines")

---------------------------------------------------------------------------
(* Files.  The content of a file: [k |-> "xml" or "yaml" or "bad" or        *)
(* "other", doc |-> document, hist |-> history nodes of an XML document,    *)
(* src |-> the database it was written from, if any (<<>> otherwise)]       *)

Ext(f) == f \in DOMAIN st.fs
ReadFile(fmt, f) == ReadAs(fmt, st.fs[f])

RECURSIVE SrcFiles(_)
SrcFiles(nd) == (IF nd.src = "" THEN {} ELSE {nd.src})
                \cup UNION {SrcFiles(nd.kids[k]) : k \in 1..Len(nd.kids)}

XWriteFails(ev) ==
    LET want == WriteXml(Tree(ev.of))
    IN  IF ~ev.ok THEN {"xwrite:exc"}
        ELSE IF ~ev.parsed THEN {"xwrite:parse"}
        ELSE Not(ev.val.doc = want, "xwrite:doc")
             \cup If(SchemaOk(want) /\ ~ev.valid, "xwrite:schema")
             \cup (IF Hist(ev.of) = <<>> THEN Not(Len(ev.val.hist) = 1, "xwrite:hist")
                   ELSE Not(NoPar(ev.val.hist) = XHist(Hist(ev.of)), "xwrite:hist"))
             \cup If(\E a, b \in 1..Len(ev.ids) : a # b /\ ev.ids[a] = ev.ids[b], "xwrite:ids")
             \cup Not(/\ \A a, b \in 1..Len(ev.files) :
                           (a # b) => ev.files[a].n # ev.files[b].n /\ ev.files[a].id # ev.files[b].id
                      /\ SrcFiles([Tree(ev.of) EXCEPT !.src = ""])
                           \subseteq {ev.files[a].n : a \in 1..Len(ev.files)}
                      \* and no file that only another database has
                      /\ \A h \in 1..Len(st.dbs) :
                           (SrcFiles([Tree(h) EXCEPT !.src = ""])
                              \ ({st.dbs[ev.of].fh[k].n : k \in 1..Len(st.dbs[ev.of].fh)}
                                  \cup SrcFiles([Tree(ev.of) EXCEPT !.src = ""])))
                           \cap {ev.files[a].n : a \in 1..Len(ev.files)} = {}, "xwrite:files")

ReadCommon(ev, fmt, pre) ==
    LET want == ReadFile(fmt, ev.f)
        got  == ObsOf(ev, ev.new).tree
    IN  Not(InstOnly(CanonDb(got), Whole) = InstOnly(CanonDb(want), Whole), pre \o ":inst")
        \cup Not(TypesOk(got), pre \o ":type")
        \cup (IF ~Even(want) THEN {}
              ELSE Not(TypeAlOk(got), pre \o ":typeal")
                   \cup Not(CanonDb(got) = CanonDb(want), pre \o ":tree"))

XReadFails(ev) ==
    LET fv == st.fs[ev.f]
        \* a reader that validates refuses what the schema cannot express
        ok == FileOk(st.fs, "xml", ev.f) /\ (ev.strict => SchemaOk(fv.doc))
    IN  IF ~ok
        THEN If(ev.ok, "xread:accepted")
             \* what was written does not say what it should
             \cup If(~ev.ok /\ Ext(ev.f) /\ fv.src # <<>>
                     /\ LET doc == WriteXml(fv.src[1]) IN XmlOk(doc) /\ (ev.strict => SchemaOk(doc)), "rt:exc")
        ELSE IF ~ev.ok THEN {"xread:exc"}
        ELSE ReadCommon(ev, "xml", "xread")
             \cup Not(NoPar(ObsOf(ev, ev.new).hist) = NoPar(fv.hist), "xread:hist")
             \cup (IF fv.src = <<>> THEN {}
                   ELSE LET got  == CanonDb(ObsOf(ev, ev.new).tree)
                            want == ReadXml(WriteXml(fv.src[1]))
                            back == CanonDb(want)
                        IN  Not(IF Even(want) THEN got = back
                                ELSE InstOnly(got, Whole) = InstOnly(back, Whole), "rt:tree")
                        \* also the bins of different kinds are in the order they were in
                        \cup Not(InstOnly(Insts(ObsOf(ev, ev.new).tree), XCi)
                                 = InstOnly(Insts(ReadXml(WriteXml(fv.src[1]))), XCi), "rt:order")
                        \cup (IF fv.src[2] = <<>> THEN {}
                              ELSE Not(NoPar(ObsOf(ev, ev.new).hist) = XHist(fv.src[2]), "rt:hist")))

\* the validator accepts what the schema can express, whether or not it makes sense
XValidFails(ev) ==
    LET fv == st.fs[ev.f]
    IN  IF fv.k = "xml" /\ SchemaOk(fv.doc) THEN Not(ev.ok, "xvalid:refused") ELSE If(ev.ok, "xvalid:accepted")

YReadFails(ev) ==
    IF ~FileOk(st.fs, "yaml", ev.f) THEN If(ev.ok, "yread:accepted")
    ELSE IF ~ev.ok THEN {"yread:exc"}
    ELSE ReadCommon(ev, "yaml", "yread")
         \cup Not(ObsOf(ev, ev.new).hist = <<>>, "yread:hist")

---------------------------------------------------------------------------
(* The registry of formats.  An entry also has the description, the flags   *)
(* and a name of the class it was registered with.                          *)

Lib == [as |-> "lib", to |-> "none"]
RgBase == [db |-> ("libucis" :> Lib) @@ BuiltIn.db, rpt |-> BuiltIn.rpt, seen |-> FALSE]

Entries(l) == [n \in {l[k].n : k \in 1..Len(l)} |->
                 LET e == l[CHOOSE k \in 1..Len(l) : l[k].n = n] IN [d |-> e.d, f |-> e.f, fl |-> e.fl]]
\* what is known of the formats built in is their names, and what they do
RgStart(ev) ==
    LET db == Entries(ev.rg.db)  rpt == Entries(ev.rg.rpt)
    IN  [db  |-> [n \in DOMAIN db \cap DOMAIN RgBase.db |-> RgBase.db[n] @@ db[n]],
         rpt |-> [n \in DOMAIN rpt \cap DOMAIN RgBase.rpt |-> RgBase.rpt[n] @@ rpt[n]],
         seen |-> TRUE]
RgNew(ev) ==
    LET e == ev.n :> [as |-> ev.as, to |-> ev.to, d |-> ev.d, f |-> ev.f, fl |-> ev.fl]
    IN  IF ev.kind = "db" THEN [st.rg EXCEPT !.db = e @@ @] ELSE [st.rg EXCEPT !.rpt = e @@ @]
NextRg(ev) ==
    CASE ev.op = "rgstart" /\ "rg" \in DOMAIN ev -> RgStart(ev)
      [] ev.op = "fmt"                           -> RgNew(ev)
      [] OTHER                                   -> st.rg

\* what is seen of a registry: rank is all the names, in order
RgSees(ev, m, l, has) ==
    Not(Map(LAMBDA e : e.n, l) = SelectSeq(ev.rg.rank, LAMBDA n : n \in DOMAIN m), "fmt:list")
    \cup If(\E k \in 1..Len(l) : l[k].n \in DOMAIN m /\
              (\/ l[k].d # m[l[k].n].d \/ l[k].f # m[l[k].n].f \/ l[k].fl # m[l[k].n].fl \/ l[k].nm # l[k].n),
          "fmt:desc")
    \cup If(\E k \in 1..Len(ev.rg.rank) : has[k] # (ev.rg.rank[k] \in DOMAIN m), "fmt:has")
RgFails(ev) ==
    IF "rg" \notin DOMAIN ev THEN {}
    ELSE LET rg == NextRg(ev)
         IN  RgSees(ev, rg.db, ev.rg.db, ev.rg.hasdb) \cup RgSees(ev, rg.rpt, ev.rg.rpt, ev.rg.hasrpt)
             \cup Not(ev.rg.dd = "xml" /\ ev.rg.dr = "txt", "fmt:default")
             \cup Not(ev.rg.same, "fmt:single")
             \cup If(ev.op = "rgstart" /\ (DOMAIN rg.db # DOMAIN RgBase.db \/ DOMAIN rg.rpt # DOMAIN RgBase.rpt),
                     "fmt:builtin")

\* the lists that are printed
ListWant(ev) ==
    LET m == IF ev.list = "db" THEN st.rg.db ELSE st.rg.rpt
    IN  Map(LAMBDA n : <<n, m[n].d>>, SelectSeq(ev.rg.rank, LAMBDA n : n \in DOMAIN m))
ListFails(ev) ==
    Not(ev.exit = 0, "cli:exit") \cup Not(ev.files = <<>>, "cli:files")
    \cup (IF st.rg.seen THEN Not(ev.got = ListWant(ev), "cli:list")
          ELSE Not(Map(LAMBDA x : x[1], ev.got) = ev.want, "cli:list"))

---------------------------------------------------------------------------
(* The command line.  ev.files lists the files that the command changed;    *)
(* the formats are those built in that the formats named stand for.         *)

CliOk(ev) == CmdOk(st.fs, ev) /\ ~ev.unrep
CliIn(ev) == CmdIn(st.fs, ev)

Changed(ev) == {ev.files[k].f : k \in 1..Len(ev.files)}
NewVal(ev, f) == (ev.files[CHOOSE k \in 1..Len(ev.files) : ev.files[k].f = f]).v

RepMatch(ev, db) ==
    IF ev.outfmt = "json" THEN ev.parsed /\ JsonOk(ReportOf(db), ev.rep)
    ELSE ev.parsed /\ LinesOk(ReportOf(db), ev)

\* a report in a directory: the directory (made with those above
\* it) holds the report, and nothing else
ReportFiles(ev) ==
    IF ev.to = "dir"
    THEN Not(Changed(ev) \subseteq {ev.out} \cup Range(ev.under) \cup Range(ev.above), "cli:files") \cup Not(ev.holds = <<"index.txt">>, "cli:dir")
    ELSE Not(Changed(ev) \subseteq (IF ev.out = "" THEN {} ELSE {ev.out}), "cli:files")

CmdFails(ev) ==
    IF ~CliOk(ev)
    THEN If(ev.exit = 0, "cli:badexit") \cup Not(ev.files = <<>>, "cli:badfiles")
         \cup Not(ev.msg, "cli:badmsg")
    ELSE IF ev.exit # 0 THEN {"cli:exit"}
    ELSE IF ev.cmd = "report"
    THEN ReportFiles(ev) \cup Not(RepMatch(ev, CliIn(ev)[1]), "cli:report")
    ELSE LET m == MergeDb(CliIn(ev))
         IN  Not(Changed(ev) \subseteq {ev.out}, "cli:files")
             \cup (IF Changed(ev) = {} THEN Not(Ext(ev.out) /\ st.fs[ev.out].k = "xml"
                                                /\ XCanon(st.fs[ev.out].doc) = XCanon(WriteXml(m)),
                                                "cli:doc")
                   ELSE IF ev.out \notin Changed(ev) THEN {"cli:doc"}
                   ELSE LET v == NewVal(ev, ev.out)
                        IN  IF v.k # "xml" THEN {"cli:doc"}
                            ELSE Not(XCanon(v.doc) = XCanon(WriteXml(m)), "cli:doc")
                                 \cup Not(~SchemaOk(WriteXml(m)) \/ ev.valid, "cli:schema")
                                 \cup (IF v.k = "xml" /\ XmlOk(v.doc) /\ ev.uniform
                                       THEN Not(RatEq(ReportOf(ReadXml(v.doc)).cov, ReportOf(m).cov), "cli:pct")
                                       ELSE {}))

CliFails(ev) ==
    IF ~ev.ok THEN {"harness:cli"}
    ELSE IF ev.cmd = "list" THEN ListFails(ev)
    ELSE CmdFails(Resolve(st.rg, ev))

---------------------------------------------------------------------------
(* The library back end.  The database is the one in the C library: what    *)
(* its functions were given.  Everything about a scope is in the node.      *)

NMkFails(ev) ==
    IF ~ev.ok THEN {"mk:exc"}
    ELSE IF ~HasPath(Tree(ev.h), ev.path) THEN {"mk:path"}
    ELSE Not(NTree(ev, ev.h) = AddKid(Tree(ev.h), ev.path, ev.node), "mk:tree")
         \cup Not(NHist(ev, ev.h) = Hist(ev.h), "mk:hist")

NBSetFails(ev) ==
    IF ~ev.ok THEN {"nbset:exc"}
    ELSE LET nd == At(Tree(ev.h), ev.path)
         IN  Not(NTree(ev, ev.h) = PutAt(Tree(ev.h), ev.path, [nd EXCEPT !.bx[ev.i] = ev.bx]), "nbset:tree")
             \cup Not(NHist(ev, ev.h) = Hist(ev.h), "nbset:hist")

NHistFails(ev) ==
    IF ~ev.ok THEN {"hist:exc"}
    ELSE Not(NHist(ev, ev.h) = Append(Hist(ev.h), ev.node), "hist:nodes")
         \cup Not(NTree(ev, ev.h) = Tree(ev.h), "hist:tree")

\* a new file handle has the name and directory given, and is all that is new
NFhFails(ev) ==
    IF ~ev.ok THEN {"nfh:exc"}
    ELSE Not(ev.got = ev.n, "nfh:name")
         \cup Not(ev.after = <<<<ev.n, ev.wd>>>> \o ev.before, "nfh:handles")

\* iterations: what is seen of each scope; what is read of each history node
NIterWant(q) ==
    Map(LAMBDA k : [src |-> k.src, loc |-> k.loc],
        SelectSeq(At(Tree(q.h), q.path).kids, LAMBDA x : \E k \in 1..Len(q.mask) : q.mask[k] = x.t))
NIterFails(ev) ==
    IF ~ev.ok THEN {"niter:exc"}
    ELSE If(\E k \in 1..Len(ev.qs) : ev.qs[k].got # NIterWant(ev.qs[k]), "niter:scopes")
NHIterFails(ev) ==
    IF ~ev.ok THEN {"nhiter:exc"}
    ELSE Not(ev.got = Map(LAMBDA h : SelectSeq(h.f, LAMBDA f : f.k # "stray"),
                          SelectSeq(Hist(ev.of), LAMBDA h : ev.kind = "0" \/ h.kind = ev.kind)), "nhiter:nodes")

NWriteFails(ev) == IF ~ev.ok THEN {"nwrite:exc"} ELSE Not(ev.got = ev.want, "nwrite:args")

\* a database that was written is opened as it was, others are refused
NOpenFails(ev) ==
    IF ev.f \notin DOMAIN st.fs THEN If(ev.ok, "nopen:accepted")
    ELSE IF ~ev.ok THEN {"nopen:exc"}
    ELSE Not(ObsOf(ev, ev.new).tree = st.fs[ev.f].tree, "nopen:tree")
         \cup Not(ObsOf(ev, ev.new).hist = st.fs[ev.f].hist, "nopen:hist")

NCloseFails(ev) ==
    IF ~ev.ok THEN {"nclose:exc"}
    ELSE Not(NTree(ev, ev.h) = SetProp(Tree(ev.h), "closed", "n:1"), "nclose:tree")
         \cup Not(NHist(ev, ev.h) = Hist(ev.h), "nclose:hist")

NNewFails(ev) ==
    IF ~ev.ok THEN {"new:exc"}
    ELSE LET o == ObsOf(ev, ev.new)
         IN  Not(o.tree.kids = <<>> /\ o.tree.bins = <<>> /\ o.hist = <<>>
                 /\ \A k \in 1..Len(o.tree.p) : o.tree.p[k].o = ev.p[k].o, "new:empty")

\* the harness saw a call with a handle that is none, or is another database's
NErr(ev) == IF "err" \notin DOMAIN ev THEN {} ELSE Not(ev.err = "", "native:handles")

---------------------------------------------------------------------------
Dir == [k |-> "dir", doc |-> <<>>, hist |-> <<>>, src |-> <<>>]
NextFs(ev) ==
    CASE ev.op = "file" /\ ev.ok /\ ev.dirs # <<>> ->
           (ev.f :> ev.val) @@ [d \in Range(ev.dirs) |-> Dir] @@ st.fs
      [] ev.op \in {"file", "xwrite"} /\ ev.ok ->
           (ev.f :> (IF ev.op = "file" THEN ev.val
                     ELSE IF ev.parsed
                     THEN [ev.val EXCEPT !.src = <<Tree(ev.of), Hist(ev.of)>>]
                     ELSE ev.val)) @@ st.fs
      [] ev.op = "nwrite" /\ ev.ok ->
           (ev.f :> [k |-> "nat", tree |-> Tree(ev.of), hist |-> Hist(ev.of)]) @@ st.fs
      [] ev.op = "cli" ->
           [f \in DOMAIN st.fs \cup Changed(ev) |->
              IF f \in Changed(ev) THEN NewVal(ev, f) ELSE st.fs[f]]
      [] OTHER -> st.fs

Fails(ev) ==
    Iso(ev) \cup Own(ev) \cup SelOk(ev) \cup Agree(ev) \cup NErr(ev) \cup RgFails(ev)
    \cup CASE ev.op = "new"    -> Not(ev.ok /\ ObsOf(ev, ev.new).tree.kids = <<>>
                                      /\ ObsOf(ev, ev.new).hist = <<>>, "new:empty")
           [] ev.op = "mk"     -> MkFails(ev)
           [] ev.op = "bin"    -> BinFails(ev)
           [] ev.op = "build"  -> BuildFails(ev)
           [] ev.op = "hit"    -> HitFails(ev)
           [] ev.op = "set"    -> SetFails(ev)
           [] ev.op = "item"   -> ItemFails(ev)
           [] ev.op = "record" -> RecordFails(ev)
           [] ev.op = "baditem" -> Not(~ev.ok, "item:accepted")
           [] ev.op = "iter"   -> IterFails(ev)
           [] ev.op = "fh"     -> FhFails(ev)
           [] ev.op = "hist"   -> HistFails(ev)
           [] ev.op = "hset"   -> HSetFails(ev)
           [] ev.op = "merge"  -> MergeFails(ev)
           [] ev.op = "report" -> ReportFails(ev) \cup Again(ev)
           [] ev.op = "json"   -> JsonFails(ev) \cup Again(ev)
           [] ev.op = "text"   -> TextFails(ev) \cup Again(ev)
           [] ev.op = "xwrite" -> XWriteFails(ev)
           [] ev.op = "xread"  -> XReadFails(ev)
           [] ev.op = "xvalid" -> XValidFails(ev)
           [] ev.op = "yread"  -> YReadFails(ev)
           [] ev.op = "cli"    -> CliFails(ev)
           [] ev.op \in {"rgstart", "fmt"} -> Not(ev.ok, "fmt:exc")
           [] ev.op = "badfmt" -> Not(~ev.ok, "fmt:accepted")
           [] ev.op = "nnew"   -> NNewFails(ev)
           [] ev.op = "nmk"    -> NMkFails(ev)
           [] ev.op = "nbset"  -> NBSetFails(ev)
           [] ev.op = "nhist"  -> NHistFails(ev)
           [] ev.op = "nfh"    -> NFhFails(ev)
           [] ev.op = "niter"  -> NIterFails(ev)
           [] ev.op = "nhiter" -> NHIterFails(ev)
           [] ev.op = "nwrite" -> NWriteFails(ev)
           [] ev.op = "nopen"  -> NOpenFails(ev)
           [] ev.op = "nclose" -> NCloseFails(ev)
           \* what the C library refuses is reported, and changes nothing: Iso
           [] ev.op = "refused" -> Not(~ev.ok, "native:refused")
           [] ev.op = "same"   -> {}          \* nothing may have changed: Iso
           [] ev.op = "file"   -> {}
           [] ev.op = "skip"   -> {}          \* not applicable to the state reached
           [] ev.op = "timeout" -> {"any:timeout"}
           [] ev.op = "crash"  -> {"any:crash"}
           [] OTHER -> {"harness:op"}

\* bookkeeping that is not an observed database
Note(ev, ds) ==
    CASE ev.op = "report" /\ ev.ok -> [ds EXCEPT ![ev.of].cov = CovList(ev.rep),
                                                 ![ev.of].reps = Append(@, <<RepKey(ev), RepVal(ev)>>)]
      [] ev.op \in {"json", "text"} /\ ev.ok ->
           [ds EXCEPT ![ev.of].reps = Append(@, <<RepKey(ev), RepVal(ev)>>)]
      [] ev.op = "fh" /\ ev.ok     -> [ds EXCEPT ![ev.of].fh = Append(@, [n |-> ev.n, id |-> ev.id])]
      [] OTHER -> ds

Init == /\ s \in 1..Len(Scen)
        /\ i = 1
        /\ st = [dbs |-> <<>>, fs |-> <<>>, rg |-> RgBase]

Next == /\ i <= Len(Scen[s].ev)
        /\ LET ev == Scen[s].ev[i]
               fl == Fails(ev)
           IN  /\ IF fl = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson(<<Scen[s].id, ToString(i), fl>>))
               /\ st' = [dbs |-> Note(ev, NextDbs(ev)), fs |-> NextFs(ev), rg |-> NextRg(ev)]
        /\ i' = i + 1
        /\ s' = s

Spec == Init /\ [][Next]_vars

View == <<s, i>>
=============================================================================
