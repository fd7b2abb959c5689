------------------------------- MODULE Draws -------------------------------
(***************************************************************************)
(* Values drawn from declared distributions.  The distributions are those  *)
(* whose cumulative distribution is a rational function, so the cumulative *)
(* levels of the limits, and hence of evenly spaced values, are exact.  A  *)
(* behaviour declares a variable and the distribution, redeclares either   *)
(* or both, and draws: n evenly spaced values, one or many random ones; or *)
(* declares a conditional distribution of the next value given the present *)
(* one and draws from it; or declares a bias of a boolean and draws.       *)
(* The answer of a draw is the levels of its values, exactly or as the     *)
(* interval in which they are uniform.                                     *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, TLC, Json
CONSTANTS Hosts, Fams, Ways, Doms, Numbers, Redefs, Trans, Biases
VARIABLES dom, fam, tran, acts, redefs
vars == <<dom, fam, tran, acts, redefs>>
\* limits lo, hi with excluded limits xl, xh
DomSeq == << [lo |-> 0, hi |-> 4, xl |-> 0, xh |-> 0], [lo |-> 1, hi |-> 3, xl |-> 1, xh |-> 0],
             [lo |-> 1, hi |-> 2, xl |-> 0, xh |-> 1], [lo |-> 2, hi |-> 4, xl |-> 1, xh |-> 1],
             [lo |-> -1, hi |-> 1, xl |-> 0, xh |-> 0], [lo |-> 0, hi |-> 1, xl |-> 0, xh |-> 1],
             [lo |-> -1, hi |-> 5, xl |-> 0, xh |-> 0], [lo |-> -1, hi |-> 0, xl |-> 1, xh |-> 0],
             [lo |-> 1, hi |-> 9, xl |-> 0, xh |-> 0] >>
RClip(r) == IF r[1] < 0 THEN RZero ELSE IF r[1] > r[2] THEN ROne ELSE r
\* cumulative distributions, parameter a
F(f, a, x) ==
  CASE f = "uniform" -> RClip(Norm(x, a))                              \* on [0, a]
    [] f = "power" -> RPow(RClip(Norm(x, 4)), a)                       \* (x/4)^a on [0, 4]
    [] f = "mobius" -> IF x <= 0 THEN RZero ELSE Norm(x, x + a)        \* log-logistic of scale a
    [] f = "pareto" -> IF x <= a THEN RZero ELSE Norm(x - a, x)        \* 1 - a/x
    [] f = "cauchy" -> IF x = -1 THEN <<1, 4>> ELSE IF x = 0 THEN <<1, 2>> ELSE <<3, 4>>
    [] OTHER -> RZero
Fits(d, f, a) == /\ (f = "cauchy" => d.lo \in {-1, 0, 1} /\ d.hi \in {-1, 0, 1})
                 /\ RLt(F(f, a, d.lo), F(f, a, d.hi))
Params(f) == CASE f = "uniform" -> {3, 4} [] f = "power" -> {1, 2, 3} [] f = "cauchy" -> {1} [] OTHER -> {1, 2}
\* symbolic distributions only where an inverse can be derived
Way(f) == IF f \in {"power"} THEN Ways \ {"sympy"} ELSE Ways
NoFam == [f |-> "flat", a |-> 0, w |-> "none"]
Decls(d) == {[f |-> f, a |-> a, w |-> w] : f \in Fams, a \in 1..4, w \in Ways} \cap
            UNION {{[f |-> f, a |-> a, w |-> w] : a \in Params(f), w \in Way(f)} : f \in Fams}
\* symbolic log-logistic functions do not vanish outside their support
OK(d, c) == Fits(d, c.f, c.a) /\ (c.w = "sympy" /\ c.f = "mobius" => d.lo >= 0)
Between(l, h, k, n) == RAdd(l, RMul(RSub(h, l), Norm(k, n)))
\* levels of n values between levels l and h
Levels(d, l, h, n) ==
  LET den == IF d.xl = 0 /\ d.xh = 0 THEN (IF n = 1 THEN 2 ELSE n - 1) ELSE n - 1 + d.xl + d.xh
  IN [i \in 1..n |-> Between(l, h, IF n = 1 /\ d.xl = 0 /\ d.xh = 0 THEN 1 ELSE i - 1 + d.xl, den)]

Init == dom = [lo |-> 0, hi |-> 0, xl |-> 0, xh |-> 0] /\ fam = NoFam /\ tran = NoFam /\ acts = <<>> /\ redefs = 0
Log(a) == acts' = Append(acts, a)
Define == /\ acts = <<>> /\ \E h \in Hosts, i \in Doms : LET d == DomSeq[i] IN \E c \in Decls(d) :
               /\ OK(d, c) /\ dom' = d /\ fam' = c /\ Log([op |-> "define", h |-> h, d |-> d, c |-> c])
          /\ tran' = NoFam /\ redefs' = 0
Asking == acts # <<>> /\ acts[Len(acts)].op \in {"define", "redefine", "declare", "tran"}
Redefine == /\ Asking /\ redefs < Redefs
            /\ \E i \in Doms : LET d == DomSeq[i] IN /\ d # dom /\ OK(d, fam) /\ (tran.f # "flat" => d.lo >= 0)
                  /\ dom' = d /\ Log([op |-> "redefine", d |-> d])
            /\ redefs' = redefs + 1 /\ UNCHANGED <<fam, tran>>
Declare == /\ Asking /\ redefs < Redefs
           /\ \E c \in Decls(dom) : c # fam /\ OK(dom, c) /\ fam' = c /\ Log([op |-> "declare", c |-> c])
           /\ redefs' = redefs + 1 /\ UNCHANGED <<dom, tran>>
DeclareTran == /\ Asking /\ tran.f = "flat" /\ dom.lo >= 0
               /\ \E t \in Trans, w \in {"tuple", "args"} : tran' = [f |-> t, a |-> 0, w |-> w] /\ Log([op |-> "tran", t |-> t, w |-> w])
               /\ UNCHANGED <<dom, fam, redefs>>
Ask(a) == Log(a) /\ UNCHANGED <<dom, fam, tran, redefs>>
Draw == /\ Asking /\ \E n \in Numbers :
             LET l == F(fam.f, fam.a, dom.lo)  h == F(fam.f, fam.a, dom.hi) IN
             Ask([op |-> "draw", n |-> n, l |-> l, h |-> h, c |-> fam, d |-> dom, ans |-> IF n > 0 THEN Levels(dom, l, h, n) ELSE <<>>])
\* the next value given the present one, p, which is the parameter of its distribution
Step == /\ Asking /\ tran.f # "flat"
        /\ \E n \in Numbers, p \in {q \in 1..3 : dom.lo + dom.xl <= q /\ q + dom.xh <= dom.hi} :
             LET l == F(tran.f, p, dom.lo)  h == F(tran.f, p, dom.hi) IN
             /\ RLt(l, h)
             /\ Ask([op |-> "step", n |-> n, p |-> p, l |-> l, h |-> h, c |-> tran, d |-> dom, ans |-> IF n > 0 THEN Levels(dom, l, h, n) ELSE <<>>])
\* at a level given
StepAt == /\ Asking /\ tran.f # "flat"
          /\ \E p \in {q \in 1..3 : dom.lo + dom.xl <= q /\ q + dom.xh <= dom.hi}, k \in 1..7 :
               LET l == F(tran.f, p, dom.lo)  h == F(tran.f, p, dom.hi) IN
               /\ RLt(l, <<k, 8>>) /\ RLt(<<k, 8>>, h)
               /\ Ask([op |-> "at", p |-> p, c |-> tran, d |-> dom, ans |-> <<<<k, 8>>>>, l |-> l, h |-> h, n |-> 1])
\* booleans
Bias == /\ \/ acts = <<>>
           \/ acts # <<>> /\ acts[Len(acts)].op = "bias" /\ Len(acts) <= Redefs
        /\ \E k \in Biases, h \in Hosts \cap {"rv", "rf", "sp"}, s \in 0..2, e \in 0..1 :
             /\ (acts # <<>> => h = acts[1].h /\ s = acts[1].s)
             /\ Log([op |-> "bias", h |-> h, k |-> k, s |-> s, e |-> e, p |-> Norm(k, 8)])
        /\ UNCHANGED <<dom, fam, tran, redefs>>
Toss == /\ acts # <<>> /\ acts[Len(acts)].op = "bias"
        /\ \E n \in {0, -1} \cap Numbers : Ask([op |-> "toss", n |-> n, p |-> acts[Len(acts)].p])
Next == Define \/ Redefine \/ Declare \/ DeclareTran \/ Draw \/ Step \/ StepAt \/ Bias \/ Toss
Spec == Init /\ [][Next]_vars

(****************************** properties *********************************)
Drawn == acts # <<>> /\ acts[Len(acts)].op \in {"draw", "step"}
\* evenly spaced values ascend
Ascending == Drawn => LET a == acts[Len(acts)].ans IN \A i \in 1..(Len(a) - 1) : RLt(a[i], a[i + 1])
\* values are within the limits, and only reach those included
Within == Drawn => LET a == acts[Len(acts)] IN \A i \in 1..Len(a.ans) :
            /\ IF a.d.xl = 1 THEN RLt(a.l, a.ans[i]) ELSE RLe(a.l, a.ans[i])
            /\ IF a.d.xh = 1 THEN RLt(a.ans[i], a.h) ELSE RLe(a.ans[i], a.h)
\* cumulative distributions are
Cumulative == Drawn => LET a == acts[Len(acts)] IN \A x \in a.d.lo..(a.d.hi - 1) :
                 a.c.f = "cauchy" \/ a.op = "step" \/ RLe(F(a.c.f, a.c.a, x), F(a.c.f, a.c.a, x + 1))
EmitEdge == PrintT("@@" \o ToJson([p |-> acts', r |-> <<>>]))
=============================================================================
