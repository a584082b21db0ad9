------------------------------- MODULE Files -------------------------------
(***************************************************************************)
(* Files and commands.  The content of a file is                           *)
(*   [k    |-> "xml", "yaml", "bad" (not a readable document) or "other",   *)
(*    doc  |-> document,  hist |-> history nodes of an XML document,        *)
(*    src  |-> the database it was written from, if known (<<>> if not)]    *)
(* and a file system is a function from names to contents.                  *)
(***************************************************************************)
EXTENDS Cov

XmlOk(doc) ==
    \A a \in 1..Len(doc) : \A b \in 1..Len(doc[a].cgs) : \A c \in 1..Len(doc[a].cgs[b].cis) :
      LET ci == doc[a].cgs[b].cis[c]
      IN  \A k \in 1..Len(ci.crs) : \A l \in 1..Len(ci.crs[k].pts) :
            IndexName(ci.cps, ci.crs[k].pts[l]) # 0

\* what the schema can express
SchemaOk(doc) ==
    /\ doc # <<>>
    /\ \A a \in 1..Len(doc) : \A b \in 1..Len(doc[a].cgs) : \A c \in 1..Len(doc[a].cgs[b].cis) :
         LET ci == doc[a].cgs[b].cis[c]
         IN  /\ ci.cps # <<>>
             /\ \A k \in 1..Len(ci.cps) : ci.cps[k].bins # <<>>

\* history nodes as XML keeps them: whether the test passed is all of the status
XStatus(f) == Tup([k \in 1..Len(f) |->
                 IF f[k].k = "status" /\ f[k].v # "1" THEN [k |-> "status", v |-> "3"] ELSE f[k]])
XHist(hs) == Tup([k \in 1..Len(hs) |-> [log |-> hs[k].log, phys |-> hs[k].phys,
                                    kind |-> hs[k].kind, f |-> XStatus(hs[k].f)]])
NoPar(hs) == Tup([k \in 1..Len(hs) |-> [log |-> hs[k].log, phys |-> hs[k].phys,
                                    kind |-> hs[k].kind, f |-> hs[k].f]])

FileOk(fs, fmt, f) ==
    /\ f \in DOMAIN fs /\ fs[f].k = fmt
    /\ IF fmt = "xml" THEN XmlOk(fs[f].doc) ELSE YamlOk(fs[f].doc)
ReadAs(fmt, v) == IF fmt = "xml" THEN ReadXml(v.doc) ELSE ReadYaml(v.doc)

---------------------------------------------------------------------------
\* covergroups by instance, without type data
Whole(nd, ty) == nd
InstOnly(db, f(_, _)) ==
    Tup([a \in 1..Len(db) |->
       [n |-> db[a].n, du |-> db[a].du,
        cgs |-> Tup([b \in 1..Len(db[a].kids) |->
                   [n |-> db[a].kids[b].n, w |-> db[a].kids[b].w,
                    cis |-> LET cis == KidsT(db[a].kids[b], "CI")
                            IN  Tup([c \in 1..Len(cis) |-> f(cis[c], db[a].kids[b].n)])]])]])

\* the type data of a covergroup is the union of its instances
NoMeta(nd) == [nd EXCEPT !.w = BOne]
TypeItems(cg) ==
    LET c == Canon(cg) IN Tup([k \in 1..Len(KidsT(c, "CP") \o KidsT(c, "CR")) |->
                             (KidsT(c, "CP") \o KidsT(c, "CR"))[k]])
Bag(items) == {<<items[k].t, items[k].n, items[k].pts,
                 {<<items[k].bins[b].n, items[k].bins[b].k, items[k].bins[b].c>>
                    : b \in 1..Len(items[k].bins)}, Len(items[k].bins)>> : k \in 1..Len(items)}
TypeOk(cg) ==
    LET got  == TypeItems(cg)
        want == MergeItems(KidsT(cg, "CI"))
    IN  Bag(got) = Bag(want) /\ Len(got) = Len(want)
TypesOk(db) == \A a \in 1..Len(Insts(db)) :
                 LET cgs == KidsT(Insts(db)[a], "CG")
                 IN  \A b \in 1..Len(cgs) : TypeOk(cgs[b])
TypeAlOk(db) == \A a \in 1..Len(Insts(db)) :
                 LET cgs == KidsT(Insts(db)[a], "CG")
                 IN  \A b \in 1..Len(cgs) :
                       LET w == MergeItems(KidsT(cgs[b], "CI"))
                           g == TypeItems(cgs[b])
                       IN  \A k \in 1..Len(g) : \A l \in 1..Len(w) :
                             (g[k].n = w[l].n /\ g[k].t = w[l].t) =>
                               {<<g[k].bins[x].n, g[k].bins[x].k, g[k].bins[x].al>> : x \in 1..Len(g[k].bins)}
                               = {<<w[l].bins[x].n, w[l].bins[x].k, w[l].bins[x].al>> : x \in 1..Len(w[l].bins)}

\* do the instances of each type agree on weights and at_least?  (What the type
\* says is defined only then, beside its bins and their counts)
Even(db) == \A a \in 1..Len(Insts(db)) :
              LET cgs == KidsT(Insts(db)[a], "CG")
              IN  \A b \in 1..Len(cgs) :
                    LET cis == KidsT(cgs[b], "CI")
                        all == UNION {{<<it.t, it.n, it.w, {it.bins[x].al : x \in 1..Len(it.bins)}>>
                                        : it \in Range(KidsT(cis[c], "CP") \o KidsT(cis[c], "CR"))} : c \in 1..Len(cis)}
                    IN  \A x, y \in all : (x[1] = y[1] /\ x[2] = y[2]) =>
                          x[3] = y[3] /\ (x[4] = y[4] \/ x[4] = {} \/ y[4] = {})

---------------------------------------------------------------------------
(* Commands: [cmd |-> "convert", "merge" or "report", infmt, outfmt,        *)
(* ins |-> names of the inputs, out |-> name of the output or ""]           *)

\* (c.to is what a report format writes to: "stream", "dir" or "none")
DbFmts == {"xml", "yaml"}               \* formats that can be read
IsFile(fs, f) == f \in DOMAIN fs /\ fs[f].k \notin {"dir", "gone"}
IsDir(fs, f) == f \in DOMAIN fs /\ fs[f].k = "dir"
CmdIn(fs, c) == Tup([k \in 1..Len(c.ins) |-> ReadAs(c.infmt, fs[c.ins[k]])])
CmdOk(fs, c) ==
    /\ c.infmt \in DbFmts
    /\ \A k \in 1..Len(c.ins) :
         /\ FileOk(fs, c.infmt, c.ins[k])
         /\ c.infmt = "xml" => SchemaOk(fs[c.ins[k]].doc)
    /\ IF c.cmd = "report"
       THEN /\ c.outfmt \in {"txt", "json"}
            /\ \/ c.to = "stream" /\ ~IsDir(fs, c.out)
               \/ c.to = "dir" /\ c.out # "" /\ ~IsFile(fs, c.out)
       ELSE /\ c.outfmt = "xml" /\ ~IsDir(fs, c.out)
            /\ Mergeable(CmdIn(fs, c))

\* Formats are registered by name.  A registry maps the names of database
\* formats, and those of report formats, to what they are:
\* [as |-> the format built in that does the work, to |-> see above]
BuiltIn == [db  |-> [n \in {"xml", "yaml"} |-> [as |-> n, to |-> "none"]],
            rpt |-> [n \in {"txt", "json"} |-> [as |-> n, to |-> "stream"]]]
FmtOf(m, n) == IF n \in DOMAIN m THEN m[n] ELSE [as |-> "none", to |-> "none"]
Resolve(rg, c) ==
    LET o == FmtOf(IF c.cmd = "report" THEN rg.rpt ELSE rg.db, c.outfmt)
    IN  [to |-> o.to] @@ [c EXCEPT !.infmt = FmtOf(rg.db, @).as, !.outfmt = o.as]

\* the document that convert and merge write
CmdDoc(fs, c) == WriteXml(MergeDb(CmdIn(fs, c)))

\* a command that fails leaves all files as they are; one that succeeds writes
\* its output and no other file
RunCmd(fs, c) ==
    IF ~CmdOk(fs, c) \/ c.out = "" THEN fs
    ELSE (c.out :> IF c.cmd = "report" THEN [k |-> IF c.to = "dir" THEN "dir" ELSE "other", doc |-> <<>>, hist |-> <<>>, src |-> <<>>]
                   ELSE [k |-> "xml", doc |-> CmdDoc(fs, c), hist |-> <<>>, src |-> <<>>]) @@ fs
=============================================================================
