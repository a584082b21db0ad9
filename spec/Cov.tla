-------------------------------- MODULE Cov --------------------------------
(***************************************************************************)
(* The coverage data model, and the meaning of each operation on it as a    *)
(* function on values.  Everything the state machine (Ucis) does to a       *)
(* database, and everything the trace specification (Trace) expects of the  *)
(* implementation, is defined here.                                         *)
(*                                                                          *)
(* A database is a tree of scopes:                                          *)
(*   [t    |-> "ROOT" "DU" "INST" "CG" "CI" "CP" "CR"                       *)
(*    n    |-> name,  w |-> weight (Big),  du |-> design-unit name (INST),  *)
(*    src  |-> source file,  loc |-> position in it,                        *)
(*    pts  |-> names of the crossed coverpoints (CR),                       *)
(*    pix  |-> position of each crossed coverpoint among the coverpoints of *)
(*             the scope that holds the cross (0: not one of them),         *)
(*    p    |-> properties set on the scope,                                 *)
(*    bins |-> sequence of bins,  bx |-> what is known of each beside that, *)
(*    kids |-> sequence of child scopes]                                    *)
(* A bin is [n |-> name, k |-> "bin" "ign" "ill", c |-> count, al |->       *)
(* at_least].                                                               *)
(***************************************************************************)
EXTENDS Big, FiniteSets, TLC

Kinds == <<"bin", "ign", "ill">>

Node(t, n, w) ==
    [t |-> t, n |-> n, w |-> w, du |-> "", src |-> "", loc |-> "-1:-1", pts |-> <<>>,
     pix |-> <<>>, p |-> <<>>, bins |-> <<>>, bx |-> <<>>, kids |-> <<>>]

Root == Node("ROOT", "", BOne)

MkBin(n, k, c, al) == [n |-> n, k |-> k, c |-> c, al |-> al]

KidsT(nd, t) == SelectSeq(nd.kids, LAMBDA x : x.t = t)
BinsK(nd, k) == SelectSeq(nd.bins, LAMBDA b : b.k = k)
Insts(db)    == KidsT(db, "INST")

---------------------------------------------------------------------------
(* Sequences *)

\* a sequence, with its elements evaluated once (TLC evaluates a function
\* constructor again at each application)
Tup(s) == <<>> \o s

RECURSIVE CatI(_, _)
CatI(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o CatI(ss, i + 1)
Cat(ss) == CatI(ss, 1)                       \* concatenation of sequences

Map(f(_), s) == Tup([i \in 1..Len(s) |-> f(s[i])])

RECURSIVE NamesI(_, _, _)
NamesI(s, i, acc) ==
    IF i > Len(s) THEN acc
    ELSE NamesI(s, i + 1,
                IF \E j \in 1..Len(acc) : acc[j] = s[i].n THEN acc
                ELSE Append(acc, s[i].n))
Names(s) == NamesI(s, 1, <<>>)               \* names, first appearances

Named(s, n) == SelectSeq(s, LAMBDA x : x.n = n)

RECURSIVE IndexNameI(_, _, _)
IndexNameI(s, n, i) == IF i > Len(s) THEN 0
                       ELSE IF s[i].n = n THEN i ELSE IndexNameI(s, n, i + 1)
IndexName(s, n) == IndexNameI(s, n, 1)

RECURSIVE SumC(_, _)
SumC(bins, i) == IF i > Len(bins) THEN BZero ELSE BAdd(bins[i].c, SumC(bins, i + 1))

---------------------------------------------------------------------------
(* Access by path: a path is a sequence of positions among the children *)

RECURSIVE At(_, _)
At(nd, path) == IF path = <<>> THEN nd ELSE At(nd.kids[Head(path)], Tail(path))

RECURSIVE HasPath(_, _)
HasPath(nd, path) == \/ path = <<>>
                     \/ /\ Head(path) \in 1..Len(nd.kids)
                        /\ HasPath(nd.kids[Head(path)], Tail(path))

RECURSIVE PutAt(_, _, _)
PutAt(nd, path, new) ==
    IF path = <<>> THEN new
    ELSE [nd EXCEPT !.kids[Head(path)] = PutAt(nd.kids[Head(path)], Tail(path), new)]

AddKid(db, path, kid) ==
    LET nd == At(db, path) IN PutAt(db, path, [nd EXCEPT !.kids = Append(@, kid)])

AddBin(db, path, b) ==
    LET nd == At(db, path) IN PutAt(db, path, [nd EXCEPT !.bins = Append(@, b)])

HitBin(db, path, i, amt) ==
    LET nd == At(db, path) IN PutAt(db, path, [nd EXCEPT !.bins[i].c = BAdd(@, amt)])

\* properties of a scope: [k |-> key, o, c |-> value seen by the object interface
\* and by the functions of the C-style interface].  Items of a design instance,
\* and records of instance coverage, are numbered from 0.
SetProp(nd, k, v) ==
    [nd EXCEPT !.p = Tup([j \in 1..Len(nd.p) |->
                        IF nd.p[j].k = k THEN [k |-> k, o |-> v, c |-> v] ELSE nd.p[j]])]
Count(p, pre) == Cardinality({j \in 0..Len(p) : \E k \in 1..Len(p) : p[k].k = pre \o ToString(j)})
AddP(nd, pre, v) ==
    [nd EXCEPT !.p = Append(@, [k |-> pre \o ToString(Count(nd.p, pre)), o |-> v, c |-> v])]

---------------------------------------------------------------------------
(* What a database says about hits: one entry per bin, with its full path.  *)

RECURSIVE FlatN(_, _)
FlatN(nd, pre) ==
    LET me   == Append(pre, <<nd.t, nd.n>>)
        mine == Tup([i \in 1..Len(nd.bins) |->
                   <<me, nd.bins[i].k, nd.bins[i].n, nd.bins[i].c>>])
    IN  mine \o Cat(Tup([i \in 1..Len(nd.kids) |-> FlatN(nd.kids[i], me)]))

\* bins of the (top-level) instances of a database
FlatBins(db) == Cat(Tup([i \in 1..Len(Insts(db)) |-> FlatN(Insts(db)[i], <<>>)]))

Range(s) == {s[i] : i \in 1..Len(s)}

Counts(db) == Range(FlatBins(db))

\* every scope under an instance, by its full path (also those without bins)
RECURSIVE FlatS(_, _)
FlatS(nd, pre) ==
    LET me == Append(pre, <<nd.t, nd.n>>)
    IN  <<me>> \o Cat(Tup([i \in 1..Len(nd.kids) |-> FlatS(nd.kids[i], me)]))
FlatScopes(db) == Cat(Tup([i \in 1..Len(Insts(db)) |-> FlatS(Insts(db)[i], <<>>)]))
Scopes(db) == Range(FlatScopes(db))

---------------------------------------------------------------------------
(* Merging.  Scopes are matched by name, bins by name and kind; the hits    *)
(* add up, and everything else is taken from the first source.              *)

MergeBinsK(bins, k) ==
    LET bk == SelectSeq(bins, LAMBDA b : b.k = k)
        ns == Names(bk)
    IN  Tup([i \in 1..Len(ns) |->
           LET g == Named(bk, ns[i]) IN MkBin(ns[i], k, SumC(g, 1), g[1].al)])

MergeBins(bins) == MergeBinsK(bins, "bin") \o MergeBinsK(bins, "ign")
                                           \o MergeBinsK(bins, "ill")

\* merge of coverpoints (all those of one name)
MergeCp(g) == [Node("CP", g[1].n, g[1].w) EXCEPT
                 !.src = g[1].src, !.loc = g[1].loc,
                 !.bins = MergeBins(Cat(Tup([i \in 1..Len(g) |-> g[i].bins])))]

MergeCps(l) == LET ns == Names(l)
               IN  Tup([i \in 1..Len(ns) |-> MergeCp(Named(l, ns[i]))])

MergeCr(g, cps) == [Node("CR", g[1].n, g[1].w) EXCEPT
                      !.src  = g[1].src, !.loc = g[1].loc,
                      !.pts  = g[1].pts,
                      !.pix  = Tup([i \in 1..Len(g[1].pts) |-> IndexName(cps, g[1].pts[i])]),
                      !.bins = MergeBins(Cat(Tup([i \in 1..Len(g) |-> g[i].bins])))]

MergeCrs(l, cps) == LET ns == Names(l)
                    IN  Tup([i \in 1..Len(ns) |-> MergeCr(Named(l, ns[i]), cps)])

\* the coverpoints and crosses of the merge of covergroups (or instances)
MergeItems(g) ==
    LET cps == MergeCps(Cat(Tup([i \in 1..Len(g) |-> KidsT(g[i], "CP")])))
    IN  cps \o MergeCrs(Cat(Tup([i \in 1..Len(g) |-> KidsT(g[i], "CR")])), cps)

MergeCi(g) == [Node("CI", g[1].n, g[1].w) EXCEPT
                 !.src = g[1].src, !.loc = g[1].loc, !.kids = MergeItems(g)]

MergeCg(g) ==
    LET cis == Cat(Tup([i \in 1..Len(g) |-> KidsT(g[i], "CI")]))
        ns  == Names(cis)
    IN  [Node("CG", g[1].n, g[1].w) EXCEPT
           !.src  = g[1].src, !.loc = g[1].loc,
           !.kids = MergeItems(g)
                    \o Tup([i \in 1..Len(ns) |-> MergeCi(Named(cis, ns[i]))])]

MergeInst(g) ==
    LET cgs == Cat(Tup([i \in 1..Len(g) |-> KidsT(g[i], "CG")]))
        ns  == Names(cgs)
    IN  [Node("INST", g[1].n, BOne) EXCEPT
           !.src  = g[1].src, !.loc = g[1].loc,
           !.du   = g[1].du,
           !.kids = Tup([i \in 1..Len(ns) |-> MergeCg(Named(cgs, ns[i]))])]

MergeDb(dbs) ==
    LET is == Cat(Tup([i \in 1..Len(dbs) |-> Insts(dbs[i])]))
        ns == Names(is)
    IN  [Root EXCEPT !.kids = Tup([i \in 1..Len(ns) |-> MergeInst(Named(is, ns[i]))])]

\* A merge is defined when every cross finds its coverpoints by name
Mergeable(dbs) ==
    LET m == MergeDb(dbs)
        ok(nd) == \A i \in 1..Len(nd.kids) :
                     nd.kids[i].t = "CR" =>
                       \A j \in 1..Len(nd.kids[i].pix) : nd.kids[i].pix[j] # 0
    IN  \A i \in 1..Len(m.kids) : \A j \in 1..Len(m.kids[i].kids) :
          LET cg == m.kids[i].kids[j]
          IN  ok(cg) /\ \A l \in 1..Len(cg.kids) : cg.kids[l].t = "CI" => ok(cg.kids[l])

---------------------------------------------------------------------------
(* Comparison of databases up to what the exchange formats do not define:   *)
(* the order of bins of different kinds, and of children of different types *)

RECURSIVE Canon(_)
Canon(nd) ==
    LET sub(t) == LET s == KidsT(nd, t) IN Tup([i \in 1..Len(s) |-> Canon(s[i])])
    IN  [t |-> nd.t, n |-> nd.n, w |-> nd.w, du |-> nd.du,
         pts |-> nd.pts, pix |-> nd.pix,
         bins |-> BinsK(nd, "bin") \o BinsK(nd, "ign") \o BinsK(nd, "ill"),
         kids |-> sub("CP") \o sub("CR") \o sub("CG") \o sub("CI")]

\* The instances of a database, in canonical form.  The weight of an instance
\* is not carried by merges and exchange formats.
CanonDb(db) == Tup([i \in 1..Len(Insts(db)) |-> [Canon(Insts(db)[i]) EXCEPT !.w = BOne]])

\* where things are: the source information of every scope, by its path
RECURSIVE FlatL(_, _)
FlatL(nd, pre) ==
    LET me == Append(pre, <<nd.t, nd.n>>)
    IN  <<<<me, nd.src, nd.loc>>>> \o Cat(Tup([i \in 1..Len(nd.kids) |-> FlatL(nd.kids[i], me)]))
Sources(db) == Range(Cat(Tup([i \in 1..Len(Insts(db)) |-> FlatL(Insts(db)[i], <<>>)])))

---------------------------------------------------------------------------
(* The coverage report *)

Hit(b) == BLeq(b.al, b.c)

Pct == BFrom(100)

\* percentage of the regular bins with at least at_least hits
ItemCov(nd) ==
    LET bs == BinsK(nd, "bin")
        h  == Len(SelectSeq(bs, Hit))
    IN  IF bs = <<>> THEN RatZero ELSE Rat(BMul(Pct, BFrom(h)), BFrom(Len(bs)))

\* weighted mean of a sequence of [w |-> weight, cov |-> percentage]
RECURSIVE WSum(_, _)
WSum(s, i) == IF i > Len(s) THEN RatZero
              ELSE RatAdd(RatScale(s[i].cov, s[i].w), WSum(s, i + 1))
RECURSIVE WTot(_, _)
WTot(s, i) == IF i > Len(s) THEN BZero ELSE BAdd(s[i].w, WTot(s, i + 1))
WMean(s) == IF WTot(s, 1) = BZero THEN RatZero
            ELSE RatDiv(WSum(s, 1), WTot(s, 1))

RBin(b) == [n |-> b.n, g |-> b.al, c |-> b.c, h |-> Hit(b)]

RItem(nd) == [n |-> nd.n, w |-> nd.w, cov |-> ItemCov(nd),
              bins |-> Map(RBin, BinsK(nd, "bin")),
              ign  |-> Map(RBin, BinsK(nd, "ign")),
              ill  |-> Map(RBin, BinsK(nd, "ill"))]

RECURSIVE RCg(_)
RCg(nd) ==
    LET cps == Map(RItem, KidsT(nd, "CP"))
        crs == Map(RItem, KidsT(nd, "CR"))
        cis == KidsT(nd, "CI")
    IN  [n |-> nd.n, w |-> nd.w, cov |-> WMean(cps \o crs),
         cps |-> cps, crs |-> crs,
         cgs |-> Tup([i \in 1..Len(cis) |-> RCg(cis[i])])]

ReportOf(db) ==
    LET cgs == Cat(Tup([i \in 1..Len(Insts(db)) |-> KidsT(Insts(db)[i], "CG")]))
        rs  == Tup([i \in 1..Len(cgs) |-> RCg(cgs[i])])
    IN  [cov |-> WMean(rs), cgs |-> rs]

---------------------------------------------------------------------------
(* Type coverage derived from the instances of a covergroup type *)

DeriveCg(n, w, cis) ==
    [Node("CG", n, w) EXCEPT !.kids = MergeItems(cis) \o cis]

---------------------------------------------------------------------------
(* YAML.  A document is a sequence of covergroup types                      *)
(*   [n, w, insts |-> Seq([n, cps |-> Seq([n, al, bins]),                   *)
(*                         crs |-> Seq([n, al, pts, bins])])]               *)
(* with bins |-> Seq([n, k, c]).                                            *)

WithAl(bins, al) == Tup([i \in 1..Len(bins) |->
                       MkBin(bins[i].n, bins[i].k, bins[i].c, al)])

YCp(cp) == [Node("CP", cp.n, BOne) EXCEPT !.bins = WithAl(cp.bins, cp.al)]
YCr(cr, cps) == [Node("CR", cr.n, BOne) EXCEPT
                   !.pts  = cr.pts,
                   !.pix  = Tup([i \in 1..Len(cr.pts) |-> IndexName(cps, cr.pts[i])]),
                   !.bins = WithAl(cr.bins, cr.al)]
YCi(i, w) == LET cps == Tup([j \in 1..Len(i.cps) |-> YCp(i.cps[j])])
             IN  [Node("CI", i.n, w) EXCEPT
                    !.kids = cps \o Tup([j \in 1..Len(i.crs) |-> YCr(i.crs[j], cps)])]
YCg(c) == DeriveCg(c.n, c.w, Tup([i \in 1..Len(c.insts) |-> YCi(c.insts[i], c.w)]))

ReadYaml(doc) ==
    [Root EXCEPT !.kids =
       << [Node("INST", "cg_inst", BOne) EXCEPT
             !.du = "du", !.kids = Tup([i \in 1..Len(doc) |-> YCg(doc[i])])] >>]

\* crosses refer to coverpoints of their own instance
YamlOk(doc) ==
    \A i \in 1..Len(doc) : \A j \in 1..Len(doc[i].insts) :
      LET ci == doc[i].insts[j]
      IN  \A k \in 1..Len(ci.crs) : \A l \in 1..Len(ci.crs[k].pts) :
            IndexName(ci.cps, ci.crs[k].pts[l]) # 0

---------------------------------------------------------------------------
(* XML.  A document is a sequence of instances                              *)
(*   [n, mod, cgs |-> Seq([w, cis |-> Seq([n, ty, w, cps |-> ..., crs |->   *)
(*    ...])])]                                                              *)
(* with coverpoints [n, w, al, bins], crosses [n, w, al, pts, bins] and     *)
(* bins [n, k, c].  Only instances are recorded when a covergroup has any.  *)

BinAl(nd) == IF nd.bins = <<>> THEN BOne ELSE nd.bins[1].al

XBins(nd) == Tup([i \in 1..Len(nd.bins) |->
                [n |-> nd.bins[i].n, k |-> nd.bins[i].k, c |-> nd.bins[i].c]])
XCp(nd) == [n |-> nd.n, w |-> nd.w, al |-> BinAl(nd), bins |-> XBins(nd)]
XCr(nd) == [n |-> nd.n, w |-> nd.w, al |-> BinAl(nd), pts |-> nd.pts, bins |-> XBins(nd)]
XCi(nd, ty) == [n |-> nd.n, ty |-> ty, w |-> nd.w,
                cps |-> Map(XCp, KidsT(nd, "CP")),
                crs |-> Map(XCr, KidsT(nd, "CR"))]
XCg(nd) == LET cis == KidsT(nd, "CI")
           IN  [w   |-> nd.w,
                cis |-> IF cis = <<>> THEN << XCi(nd, nd.n) >>
                        ELSE Tup([i \in 1..Len(cis) |-> XCi(cis[i], nd.n)])]
XInst(nd) == [n |-> nd.n, mod |-> nd.du, cgs |-> Map(XCg, KidsT(nd, "CG"))]

WriteXml(db) == Map(XInst, Insts(db))

RXCp(cp) == [Node("CP", cp.n, cp.w) EXCEPT !.bins = WithAl(cp.bins, cp.al)]
RXCr(cr, cps) == [Node("CR", cr.n, cr.w) EXCEPT
                    !.pts  = cr.pts,
                    !.pix  = Tup([i \in 1..Len(cr.pts) |-> IndexName(cps, cr.pts[i])]),
                    !.bins = WithAl(cr.bins, cr.al)]
RXCi(ci) == LET cps == Map(RXCp, ci.cps)
            IN  [Node("CI", ci.n, ci.w) EXCEPT
                   !.kids = cps \o Tup([j \in 1..Len(ci.crs) |-> RXCr(ci.crs[j], cps)])]

\* one covergroup type per type name within a covergroupCoverage section
RXCg(cg) ==
    LET tys == Names(Tup([i \in 1..Len(cg.cis) |-> [n |-> cg.cis[i].ty]]))
    IN  Tup([i \in 1..Len(tys) |->
           DeriveCg(tys[i], cg.w,
                    Map(RXCi, SelectSeq(cg.cis, LAMBDA c : c.ty = tys[i])))])

RXInst(g) == [Node("INST", g[1].n, BOne) EXCEPT
                !.du   = g[1].mod,
                !.kids = Cat(Tup([i \in 1..Len(g) |-> Cat(Map(RXCg, g[i].cgs))]))]

ReadXml(doc) ==
    LET ns == Names(doc)
    IN  [Root EXCEPT !.kids = Tup([i \in 1..Len(ns) |-> RXInst(Named(doc, ns[i]))])]

\* XML documents up to the order of bins of different kinds
XCanonBins(bins) == SelectSeq(bins, LAMBDA b : b.k = "bin")
                    \o SelectSeq(bins, LAMBDA b : b.k = "ign")
                    \o SelectSeq(bins, LAMBDA b : b.k = "ill")
XCanonItem(it) == [it EXCEPT !.bins = XCanonBins(@)]
XCanon(doc) ==
    Tup([i \in 1..Len(doc) |-> [doc[i] EXCEPT !.cgs =
       Tup([j \in 1..Len(doc[i].cgs) |-> [doc[i].cgs[j] EXCEPT !.cis =
          Tup([k \in 1..Len(doc[i].cgs[j].cis) |->
             [doc[i].cgs[j].cis[k] EXCEPT !.cps = Map(XCanonItem, @),
                                          !.crs = Map(XCanonItem, @)]])]])]])
=============================================================================
