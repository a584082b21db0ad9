--------------------------------- MODULE MC ---------------------------------
(***************************************************************************)
(* Finite instances of the state machine.  A run starts from every one of a *)
(* set of small databases (or of pairs, or triples of them) and explores    *)
(* what the operations lead to, up to a number of steps.                    *)
(*                                                                          *)
(*   bins       all sequences of bins of a coverpoint (names, kinds, counts,*)
(*              at_least), within one fixed covergroup                      *)
(*   shapes     all small shapes of a covergroup: with and without          *)
(*              instances, coverpoints and crosses in every order           *)
(*   weights    all weights and hit patterns of a covergroup with two       *)
(*              coverpoints and a cross                                     *)
(*   insts      all small sets of instances and covergroups, with shared    *)
(*              names                                                       *)
(***************************************************************************)
EXTENDS Ucis, Randomization

CONSTANTS
    Frame,        \* which databases to start from
    Arity,        \* how many
    Sample, Sample2, \* how many candidates for the first, and for the others (0: all)
    Focus,        \* the operations explored
    MaxLevel      \* the number of states of a behaviour

---------------------------------------------------------------------------
B(n, k, c, al) == MkBin(n, k, BFrom(c), BFrom(al))

Cp(n, w, bins) == [Node("CP", n, BFrom(w)) EXCEPT !.bins = bins]
Cr(n, w, pts, pix, bins) ==
    [Node("CR", n, BFrom(w)) EXCEPT !.pts = pts, !.pix = pix, !.bins = bins]
Ci(n, w, kids) == [Node("CI", n, BFrom(w)) EXCEPT !.kids = kids]
Cg(n, w, kids) == [Node("CG", n, BFrom(w)) EXCEPT !.kids = kids]
In(n, kids)    == [Node("INST", n, BOne) EXCEPT !.du = "d" \o n, !.kids = kids]
Db(is) == [Root EXCEPT !.kids = Cat(Tup([i \in 1..Len(is) |-> <<Node("DU", "d" \o is[i].n, BOne), is[i]>>]))]

\* a covergroup type over its instances
Over(n, w, cis) == DeriveCg(n, BFrom(w), cis)

---------------------------------------------------------------------------
(* bins *)
BinKeySeqs ==
    LET keys == {"x", "y"} \X {"bin", "ign"}
    IN  {<<>>} \cup {<<a>> : a \in keys} \cup {<<a, b>> \in keys \X keys : a # b}
BinSeqs ==
    UNION {{Tup([i \in 1..Len(ks) |-> B(ks[i][1], ks[i][2], c[i], al)])
              : c \in [1..Len(ks) -> {0, 2}], al \in {1, 2}} : ks \in BinKeySeqs}
BinDbs == {Db(<<In("i", <<Over("g", 1, <<Ci("a", 1, <<Cp("p", 1, bs)>>)>>)>>)>>) : bs \in BinSeqs}

---------------------------------------------------------------------------
(* shapes *)
X1 == <<B("x", "bin", 1, 1)>>
Y1 == <<B("y", "bin", 0, 1), B("x", "bin", 2, 1)>>
Items == { <<>>,
           <<Cp("p", 1, X1)>>,
           <<Cp("q", 2, Y1), Cp("p", 1, X1)>>,
           <<Cp("p", 1, Y1), Cp("q", 1, X1), Cr("r", 1, <<"p", "q">>, <<1, 2>>, X1)>>,
           <<Cp("q", 1, X1), Cp("p", 0, X1), Cr("r", 2, <<"p", "q">>, <<2, 1>>, Y1)>>,
           <<Cp("q", 1, Y1), Cr("r", 1, <<"q", "q">>, <<1, 1>>, <<>>)>> }
CiSeqs == {<<>>} \cup {<<Ci(n, 1, k)>> : n \in {"a", "b"}, k \in Items}
                 \cup {<<Ci("a", 1, k), Ci("b", 2, l)>> : k \in Items, l \in Items}
                 \cup {<<Ci("b", 1, k), Ci("a", 1, k)>> : k \in Items}
CgKids == {Tup(k) : k \in Items} \cup {MergeItems(c) \o c : c \in CiSeqs}
ShapeDbs == {Db(<<In("i", <<Cg("g", w, k)>>)>>) : w \in {1, 2}, k \in CgKids}

---------------------------------------------------------------------------
(* weights *)
Pats == {<<>>, <<B("x", "bin", 1, 1)>>, <<B("x", "bin", 1, 2), B("y", "bin", 3, 2)>>,
         <<B("x", "ign", 1, 1), B("y", "bin", 0, 0)>>}
WeightDbs ==
    {Db(<<In("i", <<Cg("g", wg, <<Cp("p", w1, p), Cp("q", w2, q),
                                  Cr("r", w3, <<"p", "q">>, <<1, 2>>, r)>>),
                    Cg("h", 1, <<Cp("p", 1, X1)>>)>>)>>)
       : wg \in {0, 1, 3}, w1 \in {0, 1}, w2 \in {0, 2}, w3 \in {0, 1}, p \in Pats, q \in Pats, r \in Pats}

---------------------------------------------------------------------------
(* insts *)
SmallCg(n, c) == Cg(n, 1, <<Cp("p", 1, <<B("x", "bin", c, 1)>>),
                            Ci("a", 1, <<Cp("p", 1, <<B("x", "bin", c, 1)>>)>>)>>)
CgSeqs == {<<>>, <<SmallCg("g", 1)>>, <<SmallCg("h", 2)>>, <<SmallCg("g", 1), SmallCg("h", 0)>>,
           <<SmallCg("h", 3), SmallCg("g", 1)>>, <<SmallCg("g", 1), SmallCg("g", 2)>>,
           <<Cg("g", 2, <<>>)>>}
InstDbs == {Db(<<>>)} \cup {Db(<<In(n, c)>>) : n \in {"i", "j"}, c \in CgSeqs}
           \cup {Db(<<In(n[1], c), In(n[2], d)>>) : n \in {<<"i", "j">>, <<"j", "i">>}, c \in CgSeqs, d \in CgSeqs}

---------------------------------------------------------------------------
FrameDbs == CASE Frame = "bins"    -> BinDbs
              [] Frame = "shapes"  -> ShapeDbs
              [] Frame = "weights" -> WeightDbs
              [] Frame = "insts"   -> InstDbs
              [] Frame = "empty"   -> {}

\* all of them, or a random sample
Sampled(n) == IF n = 0 \/ n >= Cardinality(FrameDbs) THEN FrameDbs ELSE RandomSubset(n, FrameDbs)
First  == Sampled(Sample)
Others == Sampled(Sample2)

StartDbs == IF Frame = "empty" THEN {<<>>} ELSE {<<d>> : d \in First}

Going == TLCGet("level") < MaxLevel /\ ~(Record /\ Len(prog) >= GenLen)

\* the further databases
Load == /\ Going /\ Len(dbs) < Arity
        /\ \E d \in Pick(Others) :
             /\ AddDb(d, <<>>)
             /\ Log([op |-> "load", dbs |-> <<d>>])
             /\ UNCHANGED <<fmts, files, nhits>>

\* (one disjunct per operation: a simulation picks among these)
Some(op, A) == op \in Focus /\ Going /\ Len(dbs) >= Arity /\ A
NextB ==
    \/ Load
    \/ Some("new", NewDb)        \/ Some("inst", NewInst)     \/ Some("cg", NewCg)
    \/ Some("ci", NewCi)         \/ Some("cp", NewCp)         \/ Some("cr", NewCr)
    \/ Some("bin", NewBin)       \/ Some("hit", HitBins)      \/ Some("set", SetWeight)
    \/ Some("hist", NewHist)     \/ Some("hset", SetHist)     \/ Some("merge", Merge)
    \/ Some("report", Report)    \/ Some("xwrite", WriteFile) \/ Some("xread", ReadXmlFile)
    \/ Some("yput", PutYaml)     \/ Some("yread", ReadYamlFile)
    \/ Some("xput", PutXml)
    \/ Some("oput", PutOther)    \/ Some("cli", Cli)
    \/ Some("item", NewItem)     \/ Some("setitem", SetItem) \/ Some("record", NewRecord)
    \/ Some("fmt", NewFmt)
    \/ Some("nwrite", WriteNat)  \/ Some("nopen", OpenNat)
    \/ Emit
=============================================================================
