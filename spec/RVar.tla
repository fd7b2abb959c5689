-------------------------------- MODULE RVar -------------------------------
(***************************************************************************)
(* One random variable: its domain, transformation, declared distribution  *)
(* (on a probability scale) and declared transition.  Probabilities are    *)
(* exact rationals; continuous densities are per lattice unit of the       *)
(* transformed space.  A behaviour declares a variable, redeclares parts   *)
(* of it in any order and asks for probabilities, conditionals, and        *)
(* successors at given cumulative levels; every answer is a function of    *)
(* the declarations in force.                                              *)
(***************************************************************************)
EXTENDS VarOps, Rat, TLC, Json
CONSTANTS Doms,     \* indices into DomSeq
          Asks,     \* subset of {"prob", "tran"}
          Unit,     \* column weights of the transition matrices add up to this
          Scales,   \* subset of {0: linear, 1: log, 2: coefficient, 3: log with offset}
          Redefs
VARIABLES dom, tr, decl, sc, tran, acts, redefs
vars == <<dom, tr, decl, sc, tran, acts, redefs>>

DomSeq == << B(<<0, 1>>, "default"), B(<<1, 0>>, "list"), I(<<0, 1>>, "default"), I(<<0, 1, 2>>, "range"), I(<<3, 1, 2>>, "list"),
             I(<<-2, 0, 5>>, "set"), I(<<1, 4, 6>>, "array"), I(<<7>>, "list"), I(<<2, 1, 0, 3>>, "list"), I(<<5, -1>>, "list"),
             F(0, 8, 0, 0, "list"), F(0, 4, 1, 0, "list"), F(-4, 4, 1, 1, "tuple"), F(-8, 4, 0, 1, "back"), F(4, 8, 1, 0, "back") >>
Points(d) == IF d.ty = "bool" THEN {0, 1} ELSE IF d.ty = "int" THEN -3..8 ELSE {-9, -8, -5, -4, -1, 0, 1, 2, 4, 5, 8, 10}
N == Len(dom.mem)
Index(d, v) == CHOOSE i \in 1..Len(d.mem) : d.mem[i] = v

(************************** declared distributions *************************)
\* a weight for each member, of a total of 8, zeros included
Wt(n, k) == CASE n = 1 -> <<8>> [] n = 2 -> <<<<3, 5>>, <<8, 0>>, <<1, 7>>>>[k] [] n = 3 -> <<<<1, 2, 5>>, <<0, 6, 2>>, <<4, 4, 0>>>>[k]
              [] OTHER -> <<<<1, 2, 2, 3>>, <<0, 0, 7, 1>>, <<2, 4, 2, 0>>>>[k]
Binom3(v) == CASE v = 0 \/ v = 3 -> <<1, 8>> [] v = 1 \/ v = 2 -> <<3, 8>> [] OTHER -> RZero
Decls(d) == {[k |-> "default", w |-> 0]}
   \cup (IF d.ty # "float" /\ Len(d.mem) > 1 THEN {[k |-> "table", w |-> i] : i \in 1..3} \cup {[k |-> "func", w |-> i] : i \in 1..2} ELSE {})
   \cup (IF d.ty # "float" /\ Len(d.mem) = 1 THEN {[k |-> "table", w |-> 1]} ELSE {})
   \cup (IF d.ty = "bool" THEN {[k |-> "bias", w |-> i] : i \in {0, 3, 4, 8}} ELSE {})
   \cup (IF d.ty = "int" THEN {[k |-> "binom", w |-> 0]} ELSE {})
   \cup (IF d.ty = "float" THEN {[k |-> h, w |-> 0] : h \in {"ramp", "unif", "syramp", "syunif"}} ELSE {})
\* probability (density) of position j
\* transformations that declare a density instead of a space to work in: the value stays as it is, and its default
\* density is the slope of the transformation over the length of its image:  (x + 10)^2,  1 / (x + 10),  3 x + 1,  -2 x
Dens == {"dsq", "dinv", "daff", "dneg"}
Slope(d, j) == CASE tr = "dsq" -> Norm(2 * (j + 10), (d.hi + 10) * (d.hi + 10) - (d.lo + 10) * (d.lo + 10))
                 [] tr = "dinv" -> Norm((d.lo + 10) * (d.hi + 10), (j + 10) * (j + 10) * (d.hi - d.lo))
                 [] OTHER -> <<1, Length(d)>>
P(d, c, j) ==
  CASE c.k = "default" -> IF ~Inside(d, j) THEN RZero ELSE IF tr \in Dens THEN Slope(d, j) ELSE <<1, Length(d)>>
    [] c.k = "table" -> IF ~Inside(d, j) THEN RZero ELSE Norm(Wt(Len(d.mem), c.w)[Index(d, j)], 8)
    \* a function of the value, whatever the domain: (4 + value mod 3) / 8 or (1 + value mod 2) / 4
    [] c.k = "func" -> IF c.w = 1 THEN Norm(4 + (j % 3), 8) ELSE Norm(1 + (j % 2), 4)
    [] c.k = "bias" -> IF j = 1 THEN Norm(c.w, 8) ELSE Norm(8 - c.w, 8)
    [] c.k = "binom" -> Binom3(j)
    [] c.k \in {"ramp", "syramp"} -> Norm(j + 16, 32)
    [] c.k \in {"unif", "syunif"} -> IF j >= 0 /\ j <= 4 THEN <<1, 4>> ELSE RZero

(***************************** transitions *********************************)
\* columns (over ascending values) whose weights add up to Unit
Cols(n) == {c \in [1..n -> 0..Unit] : (LET RECURSIVE s(_)
                                           s(i) == IF i = 0 THEN 0 ELSE c[i] + s(i - 1) IN s(n)) = Unit}
NoTran == [k |-> "none", m |-> <<>>, r |-> <<>>]
Trans(d) ==
  IF d.ty = "float" THEN {[k |-> "scalar", m |-> <<>>, r |-> <<>>]}
  ELSE LET n == Len(d.mem)  S == [1..n -> Cols(n)] IN
    {[k |-> "scalar", m |-> <<>>, r |-> <<>>]}
    \cup {[k |-> h, m |-> s, r |-> <<>>] : h \in {"matrix", "func"}, s \in S}
    \cup {[k |-> "pair", m |-> s, r |-> [i \in 1..n |-> s[n + 1 - i]]] : s \in S}
\* rank of a value among the ascending members
Rank(d, v) == 1 + Cardinality({m \in Mem(d) : m < v})
\* p(succ | pred): row of the successor, column of the predecessor
Q(d, t, p, s, rev) ==
  CASE t.k = "scalar" -> IF Inside(d, p) /\ Inside(d, s) THEN <<1, Length(d)>> ELSE RZero
    [] t.k = "pair" /\ rev = 1 -> Norm(t.r[Rank(d, p)][Rank(d, s)], Unit)
    [] OTHER -> Norm(t.m[Rank(d, p)][Rank(d, s)], Unit)
Asc(d) == SeqOf(Mem(d))
RECURSIVE Cum(_, _, _, _, _)
Cum(d, t, p, i, rev) == IF i = 0 THEN RZero ELSE RAdd(Cum(d, t, p, i - 1, rev), Q(d, t, p, Asc(d)[i], rev))
\* successors a level l (of 2 * Unit) may lead to: possible states at which the cumulative probability crosses it
Hits(d, t, p, l, rev) == {Asc(d)[i] : i \in {i \in 1..Len(Asc(d)) : /\ Q(d, t, p, Asc(d)[i], rev)[1] > 0
                                                            /\ RLe(Cum(d, t, p, i - 1, rev), <<l, 2 * Unit>>)
                                                            /\ RLe(<<l, 2 * Unit>>, Cum(d, t, p, i, rev))}}

(******************************* actions ***********************************)
Asking == acts # <<>> /\ acts[Len(acts)].op \in {"define", "redefine", "ufun", "setprob", "settran"}
Ask(a) == acts' = Append(acts, a) /\ UNCHANGED <<dom, tr, decl, sc, tran, redefs>>
Define == /\ acts = <<>> /\ \E i \in Doms, s \in Scales : LET d == DomSeq[i] IN \E c \in Decls(d) :
               /\ ("prob" \notin Asks => c.k = "default")
               /\ dom' = d /\ decl' = c /\ sc' = s /\ acts' = <<[op |-> "define", d |-> d, c |-> c, sc |-> s]>>
          /\ tr' = "none" /\ tran' = NoTran /\ redefs' = 0
Same == UNCHANGED <<dom, tr, decl, sc, tran>>
\* a table or a matrix belongs to the size of the domain it was declared for
Redefine == /\ Asking /\ redefs < Redefs /\ tr \in {"none"} \cup Dens
            /\ \E i \in Doms : LET d == DomSeq[i] IN
                 /\ d.ty = dom.ty /\ d # dom /\ d.how # "default" /\ (decl.k = "table" => Len(d.mem) = Len(dom.mem))
                 /\ (tran.k # "none" => d.ty # "float" /\ tran.k # "scalar" /\ Len(d.mem) = Len(dom.mem))
                 /\ dom' = d /\ acts' = Append(acts, [op |-> "redefine", d |-> d])
            /\ redefs' = redefs + 1 /\ UNCHANGED <<tr, decl, sc, tran>>
Ufun == /\ Asking /\ redefs < Redefs /\ dom.ty = "float" /\ decl.k = "default"
        /\ \E t \in ({"none", "log2", "nlog2", "neg", "affine"} \cup (IF "prob" \in Asks THEN Dens ELSE {})) \ {tr} : tr' = t /\ acts' = Append(acts, [op |-> "ufun", t |-> t])
        /\ redefs' = redefs + 1 /\ UNCHANGED <<dom, decl, sc, tran>>
SetProb == /\ Asking /\ redefs < Redefs /\ "prob" \in Asks
           /\ \E c \in Decls(dom) : c # decl /\ (tr # "none" => c.k = "default")
                /\ decl' = c /\ acts' = Append(acts, [op |-> "setprob", c |-> c])
           /\ redefs' = redefs + 1 /\ UNCHANGED <<dom, tr, sc, tran>>
SetTran == /\ Asking /\ redefs < Redefs /\ "tran" \in Asks
           /\ \E t \in Trans(dom) : tran' = t /\ acts' = Append(acts, [op |-> "settran", t |-> t])
           /\ redefs' = redefs + 1 /\ UNCHANGED <<dom, tr, decl, sc>>
AskProb == /\ Asking /\ "prob" \in Asks
           /\ LET S == SeqOf(Points(dom)) IN
              Ask([op |-> "prob", at |-> S, ans |-> [i \in 1..Len(S) |-> P(dom, decl, S[i])],
                   all |-> [i \in 1..Len(dom.mem) |-> P(dom, decl, dom.mem[i])]])
AskTran == /\ Asking /\ "tran" \in Asks /\ tran.k # "none"
           /\ \E rev \in {0, 1} :
              LET S == IF dom.ty = "float" \/ tran.k = "scalar" THEN SeqOf(Points(dom)) ELSE dom.mem IN
              Ask([op |-> "tran", rev |-> rev, at |-> S, ans |-> [i \in 1..Len(S) |-> [j \in 1..Len(S) |-> Q(dom, tran, S[j], S[i], rev)]]])
AskLevel == /\ Asking /\ "tran" \in Asks /\ tran.k \in {"matrix", "pair"}
            /\ \E rev \in {0, 1}, p \in Mem(dom) :
               Ask([op |-> "level", rev |-> rev, at |-> p, den |-> 2 * Unit, ans |-> [l \in 1..(2 * Unit + 1) |-> SeqOf(Hits(dom, tran, p, l - 1, rev))],
                    q |-> [i \in 1..Len(Asc(dom)) |-> Q(dom, tran, p, Asc(dom)[i], rev)]])
AskPlace == /\ Asking /\ "tran" \in Asks /\ tran.k = "scalar" /\ dom.ty = "float"
            /\ \E l \in 0..4 : Ask([op |-> "place", l |-> l, ans |-> <<dom.lo * (4 - l) + dom.hi * l, 4>>])
Init == dom = F(0, 0, 0, 0, "none") /\ tr = "none" /\ decl = [k |-> "none", w |-> 0] /\ sc = 0 /\ tran = NoTran /\ acts = <<>> /\ redefs = 0
Next == Define \/ Redefine \/ Ufun \/ SetProb \/ SetTran \/ AskProb \/ AskTran \/ AskLevel \/ AskPlace
Spec == Init /\ [][Next]_vars

(****************************** properties *********************************)
Defined == acts # <<>>
\* total probability of declared tables, biases and defaults over a discrete domain is one
Total == Defined /\ dom.ty # "float" /\ decl.k \in {"default", "table", "bias"} =>
           RSumSeq([i \in 1..N |-> P(dom, decl, dom.mem[i])]) = ROne
Density == Defined /\ dom.ty = "float" /\ decl.k = "default" /\ tr \notin {"dsq", "dinv"} => RMul(P(dom, decl, dom.lo + 1), R(Length(dom))) = ROne
\* a density linear in the value is one over the length on average
DensityMean == Defined /\ dom.ty = "float" /\ tr = "dsq" => RMul(RAdd(Slope(dom, dom.lo), Slope(dom, dom.hi)), R(Length(dom))) = R(2)
\* whatever the predecessor, successors have total probability one; every level leads to a possible state
Stochastic == Defined /\ tran.k # "none" /\ dom.ty # "float" =>
  \A p \in Mem(dom), rev \in {0, 1} :
    /\ RSumSeq([i \in 1..N |-> Q(dom, tran, p, dom.mem[i], rev)]) = ROne
    /\ \A l \in 0..(2 * Unit) : Hits(dom, tran, p, l, rev) # {}
EmitEdge == PrintT("@@" \o ToJson([p |-> acts', r |-> <<>>]))
=============================================================================
