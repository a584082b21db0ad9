-------------------------------- MODULE Ucis --------------------------------
(***************************************************************************)
(* The system as a state machine.                                           *)
(*                                                                          *)
(*   dbs    the databases in memory (a handle is a position in the sequence)*)
(*   hist   the history nodes of each                                       *)
(*   files  the file system: name -> content (module Files)                 *)
(*   nhits  the number of hits recorded                                     *)
(*   fmts   the registry of formats: name -> what it is (module Files)      *)
(*   prog   the operations performed, in the form in which the harness      *)
(*          replays them against the implementation (left empty when a      *)
(*          model checker explores the machine: see Record)                 *)
(*                                                                          *)
(* Operations create databases, scopes, bins and history nodes, record      *)
(* hits, set weights and test data, merge, write and read XML, read YAML,   *)
(* build reports and run commands.  The meaning of each is the function of  *)
(* modules Cov and Files that the trace specification (Trace) also holds    *)
(* the implementation to.                                                   *)
(***************************************************************************)
EXTENDS Files, Json, IOUtils

CONSTANTS
    MaxDbs,       \* databases in memory
    MaxNodes,     \* scopes of a database
    MaxBins,      \* bins of a database
    MaxHits,      \* hits recorded in a run
    MaxHist,      \* history nodes of a database
    MaxSrcs,      \* sources of a merge
    NameSet,      \* names of scopes and bins
    WeightSet,    \* weights (naturals)
    AtLeastSet,   \* at_least values
    AmountSet,    \* amounts of a hit
    KindSet,      \* kinds of bins
    FileSet,      \* names of files
    FmtNames,     \* names of formats to be registered
    Record,       \* whether prog is kept
    Random        \* whether to choose at random (one successor per operation)

VARIABLES dbs, hist, files, nhits, fmts, prog

vars == <<dbs, hist, files, nhits, fmts, prog>>
View == <<dbs, hist, files, nhits, fmts>>

Pick(S) == IF Random /\ S # {} THEN {RandomElement(S)} ELSE S

Log(op) == prog' = IF Record THEN Append(prog, op) ELSE prog

---------------------------------------------------------------------------
RECURSIVE NNodes(_)
RECURSIVE NNodesI(_, _)
NNodesI(s, i) == IF i > Len(s) THEN 0 ELSE NNodes(s[i]) + NNodesI(s, i + 1)
NNodes(nd) == 1 + NNodesI(nd.kids, 1)

RECURSIVE NBins(_)
RECURSIVE NBinsI(_, _)
NBinsI(s, i) == IF i > Len(s) THEN 0 ELSE NBins(s[i]) + NBinsI(s, i + 1)
NBins(nd) == Len(nd.bins) + NBinsI(nd.kids, 1)

\* the paths of all scopes of a given type
RECURSIVE PathsT(_, _, _)
PathsT(nd, pre, ts) ==
    (IF nd.t \in ts THEN {pre} ELSE {})
    \cup UNION {PathsT(nd.kids[i], Append(pre, i), ts) : i \in 1..Len(nd.kids)}

\* a path by types: <<type, position among the siblings of that type>>, and a
\* bin by its kind.  (The order of children of different types, and of bins of
\* different kinds, in databases that were merged or read is not specified.)
RECURSIVE TPath(_, _)
TPath(nd, path) ==
    IF path = <<>> THEN <<>>
    ELSE LET i == Head(path)  t == nd.kids[i].t
         IN  << <<t, Cardinality({j \in 1..i : nd.kids[j].t = t})>> >> \o TPath(nd.kids[i], Tail(path))
TBin(nd, i) == <<nd.bins[i].k, Cardinality({j \in 1..i : nd.bins[j].k = nd.bins[i].k})>>

Room(h, n) == NNodes(dbs[h]) + n <= MaxNodes + 1

Fresh(nd, t, n) == ~ \E i \in 1..Len(nd.kids) : nd.kids[i].t = t /\ nd.kids[i].n = n

\* what the XML format can carry, and what can be merged
UniformAl(db) ==
    \A p \in PathsT(db, <<>>, {"CP", "CR"}) :
      LET bs == At(db, p).bins IN \A i \in 1..Len(bs) : bs[i].al = bs[1].al
UniqueCg(db) ==
    \A p \in PathsT(db, <<>>, {"INST"}) :
      LET cgs == KidsT(At(db, p), "CG")
      IN  \A i, j \in 1..Len(cgs) : cgs[i].n = cgs[j].n => i = j
BoundCr(db) ==
    \A p \in PathsT(db, <<>>, {"CG", "CI"}) :
      LET crs == KidsT(At(db, p), "CR")
      IN  \A i \in 1..Len(crs) : \A j \in 1..Len(crs[i].pix) : crs[i].pix[j] # 0
\* the instances of a covergroup agree on at_least
AgreeAl(db) ==
    \A p \in PathsT(db, <<>>, {"CG"}) :
      LET its == Cat(Tup([i \in 1..Len(KidsT(At(db, p), "CI")) |-> KidsT(At(db, p), "CI")[i].kids]))
      IN  \A i, j \in 1..Len(its) : (its[i].t = its[j].t /\ its[i].n = its[j].n)
                                      => BinAl(its[i]) = BinAl(its[j])
Carried(db) == UniformAl(db) /\ UniqueCg(db) /\ BoundCr(db) /\ AgreeAl(db)

---------------------------------------------------------------------------
(* Databases and their scopes *)

AddDb(db, hs) == dbs' = Append(dbs, db) /\ hist' = Append(hist, hs)

NewDb ==
    /\ Len(dbs) < MaxDbs
    /\ AddDb(Root, <<>>)
    /\ Log([op |-> "new"])
    /\ UNCHANGED <<fmts, files, nhits>>

\* an instance with its design unit
NewInst ==
    \E h \in Pick(1..Len(dbs)), n \in Pick(NameSet) :
      LET du == Node("DU", "d" \o n, BOne)
          i  == [Node("INST", n, BOne) EXCEPT !.du = "d" \o n]
      IN  /\ Room(h, 2) /\ Fresh(dbs[h], "INST", n)
          /\ dbs' = [dbs EXCEPT ![h] = AddKid(AddKid(@, <<>>, du), <<>>, i)]
          /\ Log([op |-> "inst", h |-> h, n |-> n])
          /\ UNCHANGED <<fmts, hist, files, nhits>>

Scope(h, path, t, n, w) ==
    /\ Room(h, 1)
    /\ dbs' = [dbs EXCEPT ![h] = AddKid(@, path, Node(t, n, BFrom(w)))]
    /\ Log([op |-> "scope", h |-> h, path |-> TPath(dbs[h], path), t |-> t, n |-> n, w |-> w])
    /\ UNCHANGED <<fmts, hist, files, nhits>>

NewCg ==
    \E h \in Pick(1..Len(dbs)) : \E p \in Pick(PathsT(dbs[h], <<>>, {"INST"})), n \in Pick(NameSet), w \in Pick(WeightSet) :
      Scope(h, p, "CG", n, w)
NewCi ==
    \E h \in Pick(1..Len(dbs)) : \E p \in Pick(PathsT(dbs[h], <<>>, {"CG"})), n \in Pick(NameSet), w \in Pick(WeightSet) :
      Fresh(At(dbs[h], p), "CI", n) /\ Scope(h, p, "CI", n, w)
NewCp ==
    \E h \in Pick(1..Len(dbs)) : \E p \in Pick(PathsT(dbs[h], <<>>, {"CG", "CI"})), n \in Pick(NameSet), w \in Pick(WeightSet) :
      Fresh(At(dbs[h], p), "CP", n) /\ Scope(h, p, "CP", n, w)

NewCr ==
    \E h \in Pick(1..Len(dbs)) : \E p \in Pick(PathsT(dbs[h], <<>>, {"CG", "CI"})), n \in Pick(NameSet), w \in Pick(WeightSet) :
      LET cps == KidsT(At(dbs[h], p), "CP")
      IN  /\ Room(h, 1) /\ Fresh(At(dbs[h], p), "CR", n)
          /\ \E i \in Pick(1..Len(cps)), j \in Pick(1..Len(cps)) :
               /\ dbs' = [dbs EXCEPT ![h] = AddKid(@, p,
                            [Node("CR", n, BFrom(w)) EXCEPT
                               !.pts = <<cps[i].n, cps[j].n>>, !.pix = <<i, j>>])]
               /\ Log([op |-> "cross", h |-> h, path |-> TPath(dbs[h], p), n |-> n, w |-> w, i |-> i, j |-> j])
          /\ UNCHANGED <<fmts, hist, files, nhits>>

NewBin ==
    \E h \in Pick(1..Len(dbs)) : \E p \in Pick(PathsT(dbs[h], <<>>, {"CP", "CR"})), n \in Pick(NameSet),
       k \in Pick(KindSet), c \in Pick(AmountSet \cup {0}), al \in Pick(AtLeastSet) :
      /\ NBins(dbs[h]) < MaxBins
      /\ ~ \E i \in 1..Len(At(dbs[h], p).bins) :
             At(dbs[h], p).bins[i].n = n /\ At(dbs[h], p).bins[i].k = k
      /\ dbs' = [dbs EXCEPT ![h] = AddBin(@, p, MkBin(n, k, BFrom(c), BFrom(al)))]
      /\ Log([op |-> "bin", h |-> h, path |-> TPath(dbs[h], p), n |-> n, k |-> k, c |-> c, al |-> al])
      /\ UNCHANGED <<fmts, hist, files, nhits>>

HitBins ==
    \E h \in Pick(1..Len(dbs)) : \E p \in Pick(PathsT(dbs[h], <<>>, {"CP", "CR"})) :
       \E i \in Pick(1..Len(At(dbs[h], p).bins)), amt \in Pick(AmountSet) :
         /\ nhits < MaxHits
         /\ dbs' = [dbs EXCEPT ![h] = HitBin(@, p, i, BFrom(amt))]
         /\ nhits' = nhits + 1
         /\ Log([op |-> "hit", h |-> h, path |-> TPath(dbs[h], p), b |-> TBin(At(dbs[h], p), i), amt |-> amt])
         /\ UNCHANGED <<fmts, hist, files>>

SetWeight ==
    \E h \in Pick(1..Len(dbs)) : \E p \in Pick(PathsT(dbs[h], <<>>, {"CG", "CI", "CP", "CR"})), w \in Pick(WeightSet) :
      /\ dbs' = [dbs EXCEPT ![h] = PutAt(@, p, [At(@, p) EXCEPT !.w = BFrom(w)])]
      /\ Log([op |-> "setw", h |-> h, path |-> TPath(dbs[h], p), w |-> w])
      /\ UNCHANGED <<fmts, hist, files, nhits>>

\* items of design instances, with their statement index, and records of
\* instance coverage
NewItem ==
    \E h \in Pick(1..Len(dbs)) : \E p \in Pick(PathsT(dbs[h], <<>>, {"INST"})), n \in Pick(NameSet) :
      /\ Count(At(dbs[h], p).p, "item") < MaxBins
      /\ dbs' = [dbs EXCEPT ![h] = PutAt(@, p, AddP(At(@, p), "item", "n:0"))]
      /\ Log([op |-> "item", h |-> h, path |-> TPath(dbs[h], p), n |-> n])
      /\ UNCHANGED <<fmts, hist, files, nhits>>

SetItem ==
    \E h \in Pick(1..Len(dbs)) : \E p \in Pick(PathsT(dbs[h], <<>>, {"INST"})), v \in Pick(AmountSet) :
      \E i \in Pick(0..(Count(At(dbs[h], p).p, "item") - 1)) :
        /\ dbs' = [dbs EXCEPT ![h] = PutAt(@, p, SetProp(At(@, p), "item" \o ToString(i), "n:" \o ToString(v)))]
        /\ Log([op |-> "setitem", h |-> h, path |-> TPath(dbs[h], p), i |-> i, v |-> v])
        /\ UNCHANGED <<fmts, hist, files, nhits>>

NewRecord ==
    \E h \in Pick(1..Len(dbs)), n \in Pick(NameSet) :
      /\ Count(dbs[h].p, "rec") < MaxBins
      /\ dbs' = [dbs EXCEPT ![h] = AddP(@, "rec", n)]
      /\ Log([op |-> "record", h |-> h, n |-> n])
      /\ UNCHANGED <<fmts, hist, files, nhits>>

---------------------------------------------------------------------------
(* History nodes: the fields modelled are the status and the comment *)

HNode(log, phys, kind) ==
    [par |-> 0, log |-> log, phys |-> phys, kind |-> kind,
     f |-> <<[k |-> "status", v |-> "1"], [k |-> "comment", v |-> "none"]>>]

NewHist ==
    \E h \in Pick(1..Len(dbs)), n \in Pick(NameSet), kind \in Pick({"1", "2"}) :
      /\ Len(hist[h]) < MaxHist
      /\ hist' = [hist EXCEPT ![h] = Append(@, HNode("s:" \o n, "s:" \o n, kind))]
      /\ Log([op |-> "hist", h |-> h, n |-> n, kind |-> kind])
      /\ UNCHANGED <<fmts, dbs, files, nhits>>

SetHist ==
    \E h \in Pick(1..Len(dbs)) : \E j \in Pick(1..Len(hist[h])),
       x \in Pick({<<1, "3">>, <<1, "1">>, <<1, "5">>, <<2, "s:c">>}) :
      /\ hist' = [hist EXCEPT ![h][j].f[x[1]].v = x[2]]
      /\ Log([op |-> "hset", h |-> h, node |-> j, k |-> hist[h][j].f[x[1]].k, v |-> x[2]])
      /\ UNCHANGED <<fmts, dbs, files, nhits>>

\* the node that stands for a database that has none
XNone == <<[log |-> "s:default", phys |-> "s:default", kind |-> "1",
            f |-> HNode("", "", "1").f]>>
XHistOf(h) == IF hist[h] = <<>> THEN XNone ELSE XHist(hist[h])
RHist(hs) == Tup([j \in 1..Len(hs) |-> [par |-> 0, log |-> hs[j].log, phys |-> hs[j].phys,
                                        kind |-> hs[j].kind, f |-> hs[j].f]])

---------------------------------------------------------------------------
(* Merging, reports *)

Lists(n) == UNION {[1..k -> 1..Len(dbs)] : k \in 1..n}
Of(hs) == Tup([i \in 1..Len(hs) |-> dbs[hs[i]]])

Merge ==
    /\ Len(dbs) < MaxDbs
    /\ \E hs \in Pick(Lists(MaxSrcs)) :
         /\ Mergeable(Of(hs))
         /\ AddDb(MergeDb(Of(hs)), <<>>)
         /\ Log([op |-> "merge", srcs |-> hs])
         /\ UNCHANGED <<fmts, files, nhits>>

\* a report is only looked at
Report ==
    /\ Record
    /\ \E h \in Pick(1..Len(dbs)), fmt \in Pick({"report", "json", "text"}) :
         Log([op |-> fmt, h |-> h])
    /\ UNCHANGED <<fmts, dbs, hist, files, nhits>>

---------------------------------------------------------------------------
(* Files *)

Put(f, v) == files' = (f :> v) @@ files
XVal(h) == [k |-> "xml", doc |-> WriteXml(dbs[h]), hist |-> XHistOf(h), src |-> <<>>]

WriteFile ==
    \E h \in Pick(1..Len(dbs)), f \in Pick(FileSet) :
      /\ Insts(dbs[h]) # <<>> /\ Carried(dbs[h])
      /\ Put(f, XVal(h))
      /\ Log([op |-> "xwrite", h |-> h, f |-> f])
      /\ UNCHANGED <<fmts, dbs, hist, nhits>>

\* a reader gives a new database, or refuses and changes nothing
ReadFile(fmt) ==
    \E f \in Pick(DOMAIN files) :
      /\ Len(dbs) < MaxDbs
      /\ IF FileOk(files, fmt, f)
         THEN /\ AddDb(ReadAs(fmt, files[f]), RHist(files[f].hist))
              /\ Log([op |-> fmt \o "read", f |-> f, ok |-> TRUE,
                      schema |-> fmt = "xml" => SchemaOk(files[f].doc)])
         ELSE /\ UNCHANGED <<fmts, dbs, hist>>
              /\ Record                 \* nothing happens
              /\ Log([op |-> fmt \o "read", f |-> f, ok |-> FALSE, schema |-> FALSE])
      /\ UNCHANGED <<fmts, files, nhits>>
ReadXmlFile  == ReadFile("xml")
ReadYamlFile == ReadFile("yaml")

\* someone writes a YAML document of the covergroup instances of a database
YBins(nd, cross) == Tup([i \in 1..Len(IF cross THEN BinsK(nd, "bin") ELSE nd.bins) |->
    LET b == (IF cross THEN BinsK(nd, "bin") ELSE nd.bins)[i] IN [n |-> b.n, k |-> b.k, c |-> b.c]])
YDocCi(ci) ==
    [n |-> ci.n,
     cps |-> Map(LAMBDA x : [n |-> x.n, al |-> BinAl(x), bins |-> YBins(x, FALSE)], KidsT(ci, "CP")),
     crs |-> Map(LAMBDA x : [n |-> x.n, al |-> BinAl(x), pts |-> x.pts, bins |-> YBins(x, TRUE)],
                 KidsT(ci, "CR"))]
YDoc(db) ==
    LET cgs == Cat(Tup([i \in 1..Len(Insts(db)) |-> KidsT(Insts(db)[i], "CG")]))
    IN  Tup([i \in 1..Len(cgs) |->
           [n |-> cgs[i].n, w |-> cgs[i].w, insts |-> Map(YDocCi, KidsT(cgs[i], "CI"))]])
\* ... or one whose crosses lack a coverpoint
YSpoil(doc) ==
    Tup([i \in 1..Len(doc) |-> [doc[i] EXCEPT !.insts =
       Tup([j \in 1..Len(doc[i].insts) |-> [doc[i].insts[j] EXCEPT !.cps =
          IF @ = <<>> THEN @ ELSE Tail(@)]])]])

PutYaml ==
    \E h \in Pick(1..Len(dbs)), f \in Pick(FileSet), spoil \in Pick(BOOLEAN) :
      LET doc == IF spoil THEN YSpoil(YDoc(dbs[h])) ELSE YDoc(dbs[h])
      IN  /\ Carried(dbs[h])
          /\ spoil => ~YamlOk(doc)
          /\ Put(f, [k |-> "yaml", doc |-> doc, hist |-> <<>>, src |-> <<>>])
          /\ Log([op |-> "putyaml", f |-> f, doc |-> doc])
          /\ UNCHANGED <<fmts, dbs, hist, nhits>>

\* ... or an XML document
XSpoil(doc) ==
    Tup([a \in 1..Len(doc) |-> [doc[a] EXCEPT !.cgs =
       Tup([b \in 1..Len(doc[a].cgs) |-> [doc[a].cgs[b] EXCEPT !.cis =
          Tup([c \in 1..Len(doc[a].cgs[b].cis) |-> [doc[a].cgs[b].cis[c] EXCEPT !.cps =
             IF Len(@) < 2 THEN @ ELSE Tail(@)]])]])]])
PutXml ==
    \E h \in Pick(1..Len(dbs)), f \in Pick(FileSet), spoil \in Pick(BOOLEAN) :
      LET doc == IF spoil THEN XSpoil(WriteXml(dbs[h])) ELSE WriteXml(dbs[h])
      IN  /\ Insts(dbs[h]) # <<>> /\ Carried(dbs[h])
          /\ spoil => ~XmlOk(doc)
          /\ Put(f, [k |-> "xml", doc |-> doc, hist |-> XHistOf(h), src |-> <<>>])
          /\ Log([op |-> "putxml", f |-> f, doc |-> doc, nh |-> Len(XHistOf(h))])
          /\ UNCHANGED <<fmts, dbs, hist, nhits>>

PutOther ==
    \E f \in Pick(FileSet) :
      /\ Put(f, [k |-> "other", doc |-> <<>>, hist |-> <<>>, src |-> <<>>])
      /\ Log([op |-> "putother", f |-> f])
      /\ UNCHANGED <<fmts, dbs, hist, nhits>>

---------------------------------------------------------------------------
(* The library back end: what is written is the database, and what is opened *)
(* is a database of its own                                                 *)

WriteNat ==
    \E h \in Pick(1..Len(dbs)), f \in Pick(FileSet) :
      /\ Put(f, [k |-> "nat", doc |-> dbs[h], hist |-> hist[h], src |-> <<>>])
      /\ Log([op |-> "nwrite", h |-> h, f |-> f])
      /\ UNCHANGED <<fmts, dbs, hist, nhits>>

OpenNat ==
    \E f \in Pick(FileSet) :
      /\ Len(dbs) < MaxDbs
      /\ IF f \in DOMAIN files /\ files[f].k = "nat"
         THEN /\ AddDb(files[f].doc, files[f].hist)
              /\ Log([op |-> "nopen", f |-> f, ok |-> TRUE])
         ELSE /\ UNCHANGED <<fmts, dbs, hist>>
              /\ Record
              /\ Log([op |-> "nopen", f |-> f, ok |-> FALSE])
      /\ UNCHANGED <<fmts, files, nhits>>

---------------------------------------------------------------------------
(* Commands *)

InLists == {<<>>} \cup {<<f>> : f \in FileSet} \cup (FileSet \X FileSet)
Cmds == {c \in [cmd : {"convert", "merge", "report"}, infmt : DOMAIN fmts.db \cup {"nofmt"},
                outfmt : DOMAIN fmts.db \cup DOMAIN fmts.rpt \cup {"nofmt"}, ins : InLists, out : {"", "o"}] :
           /\ c.cmd = "merge" => c.ins # <<>>
           /\ c.cmd # "merge" => Len(c.ins) = 1
           /\ c.cmd # "report" => c.out = "o" /\ c.outfmt \notin DOMAIN fmts.rpt \ DOMAIN fmts.db
           /\ c.cmd = "report" => c.outfmt \notin DOMAIN fmts.db \ DOMAIN fmts.rpt}
Res(c) == Resolve(fmts, c)

Cli ==
    \E c \in Pick(Cmds) :
      /\ files # <<>>
      /\ (CmdOk(files, Res(c)) /\ c.cmd # "report") => Carried(MergeDb(CmdIn(files, Res(c))))
      /\ files' = RunCmd(files, Res(c))
      /\ Record \/ files' # files
      /\ Log([op |-> "cli", c |-> c, ok |-> CmdOk(files, Res(c))])
      /\ UNCHANGED <<fmts, dbs, hist, nhits>>

\* a format is registered, or registered anew
NewFmt ==
    \E kind \in Pick({"db", "rpt"}), n \in Pick(FmtNames), as \in Pick({"xml", "yaml", "txt", "json", "none"}),
       to \in Pick({"stream", "dir", "none"}) :
      /\ (kind = "db") => as \notin {"txt", "json"} /\ to = "none"
      /\ (kind = "rpt") => as \notin {"xml", "yaml", "none"}
      /\ fmts' = [fmts EXCEPT ![kind] = (n :> [as |-> as, to |-> to]) @@ @]
      /\ Record \/ fmts' # fmts
      /\ Log([op |-> "fmt", kind |-> kind, n |-> n, as |-> as, to |-> to])
      /\ UNCHANGED <<dbs, hist, files, nhits>>

---------------------------------------------------------------------------
CONSTANT Start         \* the databases to start from: a set of sequences

Init == /\ dbs \in Start
        /\ hist = Tup([i \in 1..Len(dbs) |-> <<>>])
        /\ files = <<>> /\ nhits = 0 /\ fmts = BuiltIn
        /\ prog = IF Record /\ dbs # <<>> THEN <<[op |-> "load", dbs |-> dbs]>> ELSE <<>>

Build  == NewDb \/ NewInst \/ NewCg \/ NewCi \/ NewCp \/ NewCr \/ NewBin
Change == HitBins \/ SetWeight \/ NewItem \/ SetItem \/ NewRecord \/ NewHist \/ SetHist
Derive == Merge \/ Report
Io     == WriteNat \/ OpenNat \/ WriteFile \/ ReadXmlFile \/ PutYaml \/ ReadYamlFile \/ PutXml \/ PutOther \/ Cli

\* (one disjunct per operation: a simulation picks among these)
Next == NewDb \/ NewInst \/ NewCg \/ NewCi \/ NewCp \/ NewCr \/ NewBin
        \/ HitBins \/ SetWeight \/ NewHist \/ SetHist \/ Merge \/ Report
        \/ WriteFile \/ ReadXmlFile \/ PutYaml \/ ReadYamlFile \/ PutXml \/ PutOther \/ Cli
        \/ WriteNat \/ OpenNat \/ NewItem \/ SetItem \/ NewRecord \/ NewFmt

Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Properties *)

\* hits recorded for a bin: the sum over all bins with its path, kind and name
SumOf(db, path, k, n) ==
    LET fb == FlatBins(db)
        m  == SelectSeq(fb, LAMBDA x : x[1] = path /\ x[2] = k /\ x[3] = n)
    IN  SumC(Tup([i \in 1..Len(m) |-> [c |-> m[i][4]]]), 1)

BinKeys(db) == LET fb == FlatBins(db)
               IN  {<<fb[i][1], fb[i][2], fb[i][3]>> : i \in 1..Len(fb)}

RECURSIVE SumOverI(_, _, _, _, _)
SumOverI(ds, path, k, n, i) ==
    IF i > Len(ds) THEN BZero
    ELSE BAdd(SumOf(ds[i], path, k, n), SumOverI(ds, path, k, n, i + 1))

\* C01: nothing is lost, doubled or credited to something else
MergeSums ==
    \A hs \in Lists(3) :
      LET ds == Of(hs)  m == MergeDb(ds)
      IN  /\ BinKeys(m) = UNION {BinKeys(ds[i]) : i \in 1..Len(ds)}
          /\ Len(FlatBins(m)) = Cardinality(BinKeys(m))
          /\ Scopes(m) = UNION {Scopes(ds[i]) : i \in 1..Len(ds)}
          /\ Len(FlatScopes(m)) = Cardinality(Scopes(m))
          /\ \A b \in BinKeys(m) :
               SumOf(m, b[1], b[2], b[3]) = SumOverI(ds, b[1], b[2], b[3], 1)

\* C02: order and grouping do not matter
Same(a, b) == Counts(a) = Counts(b) /\ Scopes(a) = Scopes(b)
MergeOrder ==
    \A h1, h2, h3 \in 1..Len(dbs) :
      LET a == dbs[h1]  b == dbs[h2]  c == dbs[h3]
          all == MergeDb(<<a, b, c>>)
      IN  /\ Same(all, MergeDb(<<c, a, b>>))
          /\ Same(all, MergeDb(<<b, a, c>>))
          /\ Same(all, MergeDb(<<MergeDb(<<a, b>>), c>>))
          /\ Same(all, MergeDb(<<a, MergeDb(<<b, c>>)>>))
          /\ Same(MergeDb(<<a>>), MergeDb(<<MergeDb(<<a>>)>>))

\* C03: grouping from the left keeps weights, at_least, order and crosses
MergeMeta ==
    \A h1, h2, h3 \in 1..Len(dbs) :
      LET a == dbs[h1]  b == dbs[h2]  c == dbs[h3]
      IN  CanonDb(MergeDb(<<a, b, c>>)) = CanonDb(MergeDb(<<MergeDb(<<a, b>>), c>>))

\* every cross of the merge finds the coverpoints it names
CrossesBound ==
    \A hs \in Lists(3) : Mergeable(Of(hs)) =>
      \A p \in PathsT(MergeDb(Of(hs)), <<>>, {"CG", "CI"}) :
        LET nd == At(MergeDb(Of(hs)), p)  cps == KidsT(nd, "CP")  crs == KidsT(nd, "CR")
        IN  \A i \in 1..Len(crs) : \A j \in 1..Len(crs[i].pts) :
              cps[crs[i].pix[j]].n = crs[i].pts[j]

\* C11: after one round trip nothing more changes, and nothing of the instances is lost
\* the covergroup instances of a database, by path, in canonical form
InstData(db) ==
    UNION {UNION {
      LET cg == KidsT(Insts(db)[i], "CG")[j]
          cis == KidsT(cg, "CI")
      IN  IF cis = <<>>
          THEN {<<Insts(db)[i].n, cg.n, j, cg.w, 1, cg.n, cg.w, Canon([cg EXCEPT !.t = "CI"])>>}
          ELSE {<<Insts(db)[i].n, cg.n, j, cg.w, k, cis[k].n, cis[k].w, Canon(cis[k])>> :
                  k \in 1..Len(cis)}
      : j \in 1..Len(KidsT(Insts(db)[i], "CG"))} : i \in 1..Len(Insts(db))}

RoundTrip ==
    \A h \in 1..Len(dbs) :
      LET db == dbs[h]  r == ReadXml(WriteXml(db))
      IN  Carried(db) =>
            /\ InstData(r) = InstData(db)
            /\ CanonDb(ReadXml(WriteXml(r))) = CanonDb(r)
            /\ XCanon(WriteXml(r)) = XCanon(WriteXml(db))
            \* type coverage that is that of the instances survives as well
            /\ (\A p \in PathsT(db, <<>>, {"CG"}) :
                  LET cg == At(db, p)
                  IN  /\ KidsT(cg, "CI") # <<>>
                      /\ Canon(cg) = Canon(DeriveCg(cg.n, cg.w, KidsT(cg, "CI"))))
                 => /\ ReportOf(r) = ReportOf(db)
                    /\ CanonDb(r) = CanonDb(db)

\* C12: the type coverage read from XML is the union of the instances
TypeUnionIn(r) ==
    \A p \in PathsT(r, <<>>, {"CG"}) :
            LET cg == At(r, p)
                tb == Range(Cat(Tup([i \in 1..Len(cg.kids) |->
                        IF cg.kids[i].t = "CI" THEN <<>> ELSE FlatN(cg.kids[i], <<>>)])))
                ib == Cat(Tup([i \in 1..Len(cg.kids) |->
                        IF cg.kids[i].t # "CI" THEN <<>>
                        ELSE Cat(Tup([j \in 1..Len(cg.kids[i].kids) |->
                                    FlatN(cg.kids[i].kids[j], <<>>)]))]))
            IN  /\ {<<x[1], x[2], x[3]>> : x \in tb} = {<<x[1], x[2], x[3]>> : x \in Range(ib)}
                /\ \A x \in tb :
                     LET m == SelectSeq(ib, LAMBDA y : y[1] = x[1] /\ y[2] = x[2] /\ y[3] = x[3])
                     IN  x[4] = SumC(Tup([i \in 1..Len(m) |-> [c |-> m[i][4]]]), 1)
TypeUnion == \A h \in 1..Len(dbs) :
               LET r == ReadXml(WriteXml(dbs[h])) IN TypeUnionIn(r) /\ TypesOk(r)

\* C07: percentages lie between 0 and 100, and 100 means that all is covered
RECURSIVE CgCovs(_)
CgCovs(r) == {r.cov} \cup {r.cps[i].cov : i \in 1..Len(r.cps)}
                     \cup {r.crs[i].cov : i \in 1..Len(r.crs)}
                     \cup UNION {CgCovs(r.cgs[i]) : i \in 1..Len(r.cgs)}
Covs(rep) == {rep.cov} \cup UNION {CgCovs(rep.cgs[i]) : i \in 1..Len(rep.cgs)}

Full == Rat(Pct, BOne)
InRange ==
    \A h \in 1..Len(dbs) :
      LET rep == ReportOf(dbs[h])
      IN  /\ \A c \in Covs(rep) : RatLeq(c, Full)
          /\ RatEq(rep.cov, Full) =>
               \A i \in 1..Len(rep.cgs) : rep.cgs[i].w # BZero =>
                 \A k \in 1..Len(rep.cgs[i].cps) :
                   rep.cgs[i].cps[k].w # BZero => RatEq(rep.cgs[i].cps[k].cov, Full)

\* the percentages of a report, in order
RECURSIVE CgList(_)
CgList(r) == <<r.cov>> \o Tup([i \in 1..Len(r.cps) |-> r.cps[i].cov])
                       \o Tup([i \in 1..Len(r.crs) |-> r.crs[i].cov])
                       \o Cat(Tup([i \in 1..Len(r.cgs) |-> CgList(r.cgs[i])]))
CovList(rep) == <<rep.cov>> \o Cat(Tup([i \in 1..Len(rep.cgs) |-> CgList(rep.cgs[i])]))

\* C07: hits never lower a percentage
Monotone ==
    [][nhits' > nhits =>
         \A h \in 1..Len(dbs) :
           LET a == CovList(ReportOf(dbs[h]))  b == CovList(ReportOf(dbs'[h]))
           IN  Len(a) = Len(b) /\ \A i \in 1..Len(a) : RatLeq(a[i], b[i])]_vars

\* C04, C25: an operation changes at most the database it is applied to
Isolation ==
    [][/\ Len(dbs') >= Len(dbs)
       /\ Cardinality({h \in 1..Len(dbs) : dbs'[h] # dbs[h]})
            + (Len(dbs') - Len(dbs)) <= 1]_vars

\* C17: a hit changes one count, by its amount
OneCount ==
    [][nhits' > nhits =>
         \E h \in 1..Len(dbs) :
           LET a == FlatBins(dbs[h])  b == FlatBins(dbs'[h])
           IN  /\ Len(a) = Len(b)
               /\ Cardinality({i \in 1..Len(a) : a[i] # b[i]}) = 1
               /\ \A i \in 1..Len(a) : SubSeq(a[i], 1, 3) = SubSeq(b[i], 1, 3)
                                       /\ BLeq(a[i][4], b[i][4])]_vars

TypeOK ==
    \A h \in 1..Len(dbs) :
      /\ dbs[h].t = "ROOT"
      /\ \A p \in PathsT(dbs[h], <<>>, {"CP", "CR"}) :
           \A i \in 1..Len(At(dbs[h], p).bins) :
             LET b == At(dbs[h], p).bins[i]
             IN  IsBig(b.c) /\ IsBig(b.al) /\ b.k \in KindSet

\* C08: the instances read from YAML are those of the document
YamlInst ==
    \A h \in 1..Len(dbs) :
      LET db  == dbs[h]
          r   == ReadYaml(YDoc(db))
          \* weights of items and ignored bins of crosses are not in YAML
          strip(cr) == [cr EXCEPT !.w = BOne, !.bins = SelectSeq(@, LAMBDA b : cr.t # "CR" \/ b.k = "bin")]
          data(d) == UNION {UNION {
             LET cg == KidsT(Insts(d)[i], "CG")[j]  cis == KidsT(cg, "CI")
             IN  {<<cg.n, cg.w, k, cis[k].n,
                    Tup([x \in 1..Len(Canon(cis[k]).kids) |-> strip(Canon(cis[k]).kids[x])])>> : k \in 1..Len(cis)}
             : j \in 1..Len(KidsT(Insts(d)[i], "CG"))} : i \in 1..Len(Insts(d))}
      IN  (Carried(db) /\ Len(Insts(db)) = 1) =>
            /\ YamlOk(YDoc(db))
            /\ data(r) = data(db)
            /\ Len(Insts(r)) = 1
            /\ Names(KidsT(Insts(r)[1], "CG")) = Names(KidsT(Insts(db)[1], "CG"))

\* C09: the type coverage is the union of the instances
YamlType == \A h \in 1..Len(dbs) :
              (Carried(dbs[h]) /\ Insts(dbs[h]) # <<>>) =>
                 LET r == ReadYaml(YDoc(dbs[h])) IN TypesOk(r) /\ TypeAlOk(r) /\ TypeUnionIn(r)

\* C10, C15: a document is refused exactly when a cross lacks a coverpoint
Refuses ==
    \A f \in DOMAIN files :
      (files[f].k = "yaml") =>
        (FileOk(files, "yaml", f) <=>
           \A p \in PathsT(ReadYaml(files[f].doc), <<>>, {"CR"}) :
              LET cr == At(ReadYaml(files[f].doc), p)
              IN  \A j \in 1..Len(cr.pix) : cr.pix[j] # 0)

\* C14: history survives a round trip, up to the status
HistTrip ==
    \A h \in 1..Len(dbs) : hist[h] # <<>> =>
      LET r == RHist(XHistOf(h))
      IN  /\ Len(r) = Len(hist[h])
          /\ RHist(XHist(r)) = r
          /\ \A j \in 1..Len(r) :
               /\ r[j].log = hist[h][j].log /\ r[j].phys = hist[h][j].phys /\ r[j].kind = hist[h][j].kind
               /\ (r[j].f[1].v = "1") = (hist[h][j].f[1].v = "1")
               /\ r[j].f[2] = hist[h][j].f[2]

\* C13: what is written says what the database says: as many bins, and the same sum
WriteSays ==
    \A h \in 1..Len(dbs) :
      LET db == dbs[h]  doc == WriteXml(db)
          src(cg) == IF KidsT(cg, "CI") = <<>> THEN <<cg>> ELSE KidsT(cg, "CI")
          items(c) == KidsT(c, "CP") \o KidsT(c, "CR")
          want == Cat(Tup([i \in 1..Len(Insts(db)) |->
                    Cat(Tup([j \in 1..Len(KidsT(Insts(db)[i], "CG")) |->
                       LET cg == KidsT(Insts(db)[i], "CG")[j]
                       IN  Cat(Tup([k \in 1..Len(src(cg)) |->
                              Cat(Tup([l \in 1..Len(items(src(cg)[k])) |->
                                 LET it == items(src(cg)[k])[l]
                                 IN  Tup([b \in 1..Len(it.bins) |->
                                        <<Insts(db)[i].n, cg.n, src(cg)[k].n, it.n, it.bins[b].n,
                                          it.bins[b].k, it.bins[b].c>>])]))]))]))]))
          got == Cat(Tup([i \in 1..Len(doc) |->
                    Cat(Tup([j \in 1..Len(doc[i].cgs) |->
                       LET cg == doc[i].cgs[j]
                       IN  Cat(Tup([k \in 1..Len(cg.cis) |->
                              LET its == Tup([x \in 1..Len(cg.cis[k].cps) |-> [n |-> cg.cis[k].cps[x].n, bins |-> cg.cis[k].cps[x].bins]])
                                         \o Tup([x \in 1..Len(cg.cis[k].crs) |-> [n |-> cg.cis[k].crs[x].n, bins |-> cg.cis[k].crs[x].bins]])
                              IN  Cat(Tup([l \in 1..Len(its) |->
                                 Tup([b \in 1..Len(its[l].bins) |->
                                        <<doc[i].n, cg.cis[k].ty, cg.cis[k].n, its[l].n, its[l].bins[b].n,
                                          its[l].bins[b].k, its[l].bins[b].c>>])]))]))]))]))
      IN  want = got

\* C22, C24: what commands do to files
CmdSafe ==
    files # <<>> =>
    \A x \in Cmds :
      LET c == Res(x)  fs == RunCmd(files, c)
      IN  /\ \A f \in DOMAIN files : (f # c.out \/ ~CmdOk(files, c)) => f \in DOMAIN fs /\ fs[f] = files[f]
          /\ DOMAIN fs \subseteq DOMAIN files \cup {c.out}
          /\ ~CmdOk(files, c) => fs = files
          /\ (\E k \in 1..Len(c.ins) : c.ins[k] \notin DOMAIN files \/ files[c.ins[k]].k # c.infmt)
               => ~CmdOk(files, c)
CmdFaithful ==
    files # <<>> =>
    \A x \in Cmds :
      LET c == Res(x)
      IN  (c.cmd # "report" /\ CmdOk(files, c)) =>
        LET fs == RunCmd(files, c)
            v  == fs[c.out]
            m  == MergeDb(CmdIn(files, c))
            r  == ReadXml(v.doc)
        IN  /\ v.k = "xml" /\ XmlOk(v.doc)
            /\ SchemaOk(v.doc) =>
                 CmdOk(fs, [cmd |-> "report", infmt |-> "xml", outfmt |-> "txt", to |-> "stream",
                            ins |-> <<c.out>>, out |-> ""])
            \* the instance data is that of the merge
            /\ Carried(m) => InstData(r) = InstData(m)

\* C28: what a format that was registered does is what the format built in that
\* it stands for does, whatever its name, and a name that is not registered does nothing
FmtUsed ==
    files # <<>> =>
    \A c \in Cmds :
      LET rg == IF c.cmd = "report" THEN fmts.rpt ELSE fmts.db
      IN  /\ (c.infmt = "nofmt" \/ c.outfmt = "nofmt") => RunCmd(files, Res(c)) = files
          /\ (c.infmt \in DOMAIN fmts.db /\ c.outfmt \in DOMAIN rg /\ rg[c.outfmt].to # "dir"
              /\ ~ (c.cmd = "report" /\ rg[c.outfmt].to = "none")) =>
               RunCmd(files, Res(c))
                 = RunCmd(files, Resolve(BuiltIn, [c EXCEPT !.infmt = fmts.db[@].as, !.outfmt = rg[@].as]))
FmtLast ==
    [][fmts' # fmts =>
         /\ UNCHANGED <<dbs, hist, files, nhits>>
         /\ \E kind \in {"db", "rpt"}, n \in FmtNames :
              /\ \A k \in {"db", "rpt"} :
                   DOMAIN fmts'[k] = DOMAIN fmts[k] \cup (IF k = kind THEN {n} ELSE {})
              /\ \A k \in {"db", "rpt"} : \A m \in DOMAIN fmts[k] :
                   (k # kind \/ m # n) => fmts'[k][m] = fmts[k][m]]_vars

\* C25: a file that is not written to keeps its content
FilesKept ==
    [][\A f \in DOMAIN files : f \in DOMAIN files' /\
         Cardinality({g \in DOMAIN files : files'[g] # files[g]}) <= 1]_vars

\* C26: a database that is opened is one that was in memory when it was written,
\* and neither the one nor the other changes with it from then on
Opened ==
    [][/\ \A f \in DOMAIN files' :
            (files'[f].k = "nat" /\ (f \notin DOMAIN files \/ files'[f] # files[f])) =>
               \E h \in 1..Len(dbs) : files'[f].doc = dbs[h] /\ files'[f].hist = hist[h]
       /\ (Len(dbs') > Len(dbs) /\ dbs'[Len(dbs')] # Root) =>
            /\ \E f \in DOMAIN files : files[f].k = "nat" /\ files[f].doc = dbs'[Len(dbs')]
                                       /\ files[f].hist = hist'[Len(dbs')]
            /\ files' = files /\ SubSeq(dbs', 1, Len(dbs)) = dbs
       /\ \A h \in 1..Len(dbs) : dbs'[h] # dbs[h] => files' = files]_vars

\* C05: a share of bins, and means that no zero weight and no common factor changes
Twice(l) == Tup([i \in 1..Len(l) |-> [w |-> BMul(l[i].w, BFrom(2)), cov |-> l[i].cov]])
MeanOk(cov, l) ==
    LET pos == SelectSeq(l, LAMBDA x : x.w # BZero)
    IN  IF pos = <<>> THEN cov = RatZero
        ELSE /\ \E i \in 1..Len(pos) : RatLeq(pos[i].cov, cov)
             /\ \E i \in 1..Len(pos) : RatLeq(cov, pos[i].cov)
             /\ RatEq(cov, WMean(pos)) /\ RatEq(cov, WMean(Twice(l)))
ShareOk(it) ==
    LET h == Len(SelectSeq(it.bins, LAMBDA b : b.h))
    IN  IF it.bins = <<>> THEN it.cov = RatZero
        ELSE RatEq(RatScale(it.cov, BFrom(Len(it.bins))), Rat(BFrom(100 * h), BOne))
RECURSIVE CgShares(_)
CgShares(r) == /\ \A i \in 1..Len(r.cps) : ShareOk(r.cps[i])
               /\ \A i \in 1..Len(r.crs) : ShareOk(r.crs[i])
               /\ MeanOk(r.cov, r.cps \o r.crs)
               /\ \A i \in 1..Len(r.cgs) : CgShares(r.cgs[i])
CovShares ==
    \A h \in 1..Len(dbs) :
      LET rep == ReportOf(dbs[h])
      IN  MeanOk(rep.cov, rep.cgs) /\ \A i \in 1..Len(rep.cgs) : CgShares(rep.cgs[i])

\* C06: the bins of the report, in order, are those of the database
RBins(it, n, bs, k) == Tup([i \in 1..Len(bs) |-> <<Append(n, it.n), k, bs[i].n, bs[i].c>>])
RECURSIVE CgBins(_, _)
CgBins(r, pre) ==
    LET n == Append(pre, r.n)
    IN  Cat(Tup([i \in 1..Len(r.cps) |-> RBins(r.cps[i], n, r.cps[i].bins, "bin")
                                         \o RBins(r.cps[i], n, r.cps[i].ign, "ign")
                                         \o RBins(r.cps[i], n, r.cps[i].ill, "ill")]))
        \o Cat(Tup([i \in 1..Len(r.crs) |-> RBins(r.crs[i], n, r.crs[i].bins, "bin")]))
        \o Cat(Tup([i \in 1..Len(r.cgs) |-> CgBins(r.cgs[i], n)]))
Mirrors ==
    \A h \in 1..Len(dbs) :
      LET rep == ReportOf(dbs[h])
          rb  == Cat(Tup([i \in 1..Len(rep.cgs) |-> CgBins(rep.cgs[i], <<>>)]))
          fb  == Tup([i \in 1..Len(FlatBins(dbs[h])) |->
                    LET x == FlatBins(dbs[h])[i]
                    IN  <<Tup([j \in 1..(Len(x[1]) - 1) |-> x[1][j + 1][2]]), x[2], x[3], x[4],
                          x[1][Len(x[1])][1]>>])
          occ(l, x) == Cardinality({i \in 1..Len(l) : l[i][1] = x[1] /\ l[i][2] = x[2]
                                                      /\ l[i][3] = x[3] /\ l[i][4] = x[4]})
          shown == SelectSeq(fb, LAMBDA x : x[5] = "CP" \/ x[2] = "bin")
      IN  /\ Len(rb) = Len(shown)
          /\ \A i \in 1..Len(rb) : occ(rb, rb[i]) = occ(shown, rb[i])
          /\ Len(rep.cgs) = Cardinality(PathsT(dbs[h], <<>>, {"CG"}))

\* C15: the same for XML
RefusesXml ==
    \A f \in DOMAIN files :
      (files[f].k = "xml") =>
        (FileOk(files, "xml", f) <=>
           \A p \in PathsT(ReadXml(files[f].doc), <<>>, {"CR"}) :
              LET cr == At(ReadXml(files[f].doc), p)
              IN  \A j \in 1..Len(cr.pix) : cr.pix[j] # 0)

\* C16: creation adds to the end, and changes nothing that is there
RECURSIVE Extends(_, _)
Extends(a, b) ==
    /\ [a EXCEPT !.kids = <<>>, !.bins = <<>>] = [b EXCEPT !.kids = <<>>, !.bins = <<>>]
    /\ Len(a.bins) <= Len(b.bins) /\ a.bins = SubSeq(b.bins, 1, Len(a.bins))
    /\ Len(a.kids) <= Len(b.kids) /\ \A i \in 1..Len(a.kids) : Extends(a.kids[i], b.kids[i])
Created ==
    [][\A h \in 1..Len(dbs) :
         dbs'[h] # dbs[h] =>
           /\ Extends(dbs[h], dbs'[h])
           /\ NNodes(dbs'[h]) + NBins(dbs'[h]) - NNodes(dbs[h]) - NBins(dbs[h]) \in {1, 2}]_vars

\* C18: setting a weight changes that weight only
RECURSIVE NoWeights(_)
NoWeights(nd) == [nd EXCEPT !.w = BOne, !.kids = Tup([i \in 1..Len(nd.kids) |-> NoWeights(nd.kids[i])])]
AllPaths(nd) == PathsT(nd, <<>>, {"ROOT", "DU", "INST", "CG", "CI", "CP", "CR"})
OneWeight ==
    [][(nhits' = nhits /\ Len(dbs') = Len(dbs)) =>
         \A h \in 1..Len(dbs) :
           /\ NoWeights(dbs'[h]) = NoWeights(dbs[h])
           /\ Cardinality({p \in AllPaths(dbs[h]) : At(dbs'[h], p).w # At(dbs[h], p).w}) <= 1]_vars

\* C27: one item or record is added, numbered next, or the index of one item is set
RECURSIVE NoExtras(_)
NoExtras(nd) == [nd EXCEPT !.p = <<>>, !.kids = Tup([i \in 1..Len(nd.kids) |-> NoExtras(nd.kids[i])])]
Extras(db) == UNION {{<<p, At(db, p).p[j].k, At(db, p).p[j].o>> : j \in 1..Len(At(db, p).p)} : p \in AllPaths(db)}
Keys(db) == {<<x[1], x[2]>> : x \in Extras(db)}
OneExtra ==
    [][\A h \in 1..Len(dbs) :
         dbs'[h] # dbs[h] =>
           LET a == Extras(dbs[h])  b == Extras(dbs'[h])
           IN  /\ NoExtras(dbs'[h]) = NoExtras(dbs[h])
               /\ Keys(dbs[h]) \subseteq Keys(dbs'[h])
               /\ Cardinality(b \ a) = 1 /\ Cardinality(a \ b) <= 1
               /\ Cardinality(Keys(dbs'[h]) \ Keys(dbs[h])) + Cardinality(a \ b) = 1
               /\ \A k \in Keys(dbs'[h]) \ Keys(dbs[h]) :
                    \E pre \in {"item", "rec"} : k[2] = pre \o ToString(Count(At(dbs[h], k[1]).p, pre))]_vars

\* C19: one node is added at the end, or one field of one node set
OneNode ==
    [][/\ Cardinality({h \in 1..Len(hist) : hist'[h] # hist[h]}) <= 1
       /\ \A h \in 1..Len(hist) :
            hist'[h] # hist[h] =>
              \/ /\ Len(hist'[h]) = Len(hist[h]) + 1 /\ SubSeq(hist'[h], 1, Len(hist[h])) = hist[h]
              \/ /\ Len(hist'[h]) = Len(hist[h])
                 /\ Cardinality({<<j, k>> \in (1..Len(hist[h])) \X (1..2) :
                                   hist'[h][j].f[k] # hist[h][j].f[k]}) = 1
                 /\ \A j \in 1..Len(hist[h]) : [hist'[h][j] EXCEPT !.f = <<>>] = [hist[h][j] EXCEPT !.f = <<>>]]_vars

\* C23: a report command needs a readable file, and a file converted is reported alike
CmdReport ==
    files # <<>> =>
    \A x \in Cmds :
      LET c == Res(x)
      IN
      /\ (c.cmd = "report" /\ c.to = "stream" /\ ~IsDir(files, c.out)) => (CmdOk(files, c) <=>
            /\ FileOk(files, c.infmt, c.ins[1])
            /\ c.infmt = "xml" => SchemaOk(files[c.ins[1]].doc))
      /\ (c.cmd = "convert" /\ CmdOk(files, c)) =>
           LET fs == RunCmd(files, c)
               d  == ReadAs(c.infmt, files[c.ins[1]])
               r  == ReadAs("xml", fs[c.out])
           IN  (/\ Carried(d)
                /\ \A p \in PathsT(d, <<>>, {"CG"}) : KidsT(At(d, p), "CI") # <<>>)
               => ReportOf(r).cov = ReportOf(MergeDb(<<d>>)).cov

---------------------------------------------------------------------------
(* Generation of operation sequences for replay                             *)
CONSTANT GenLen        \* the number of operations of a sequence
Emit == /\ Record /\ Len(prog) = GenLen
        /\ PrintT("PROG " \o ToJson(prog))
        /\ prog' = Append(prog, [op |-> "end"])
        /\ UNCHANGED <<fmts, dbs, hist, files, nhits>>
=============================================================================
