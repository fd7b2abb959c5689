-------------------------------- MODULE Var --------------------------------
(***************************************************************************)
(* One variable: its domain, its optional monotonic transformation and its *)
(* default step.  Positions of continuous variables are integers of a      *)
(* lattice in the transformed space (Dir = -1 for decreasing               *)
(* transformations); the replay maps lattice positions to values.          *)
(* A behaviour defines a variable, redefines it any number of times        *)
(* (domain, transformation, default step, in any order) and asks           *)
(* questions; every answer is a function of the current definition only.   *)
(***************************************************************************)
EXTENDS VarOps, TLC, Json
CONSTANTS Types,    \* subset of {"bool", "int", "float"}
          Asks,     \* subset of {"inside", "eval", "fix", "rand", "default"}
          Redefs    \* maximal number of redefinitions

VARIABLES dom, tr, dl, acts, redefs
vars == <<dom, tr, dl, acts, redefs>>

Bools == {B(<<0, 1>>, "default"), B(<<0, 1>>, "list"), B(<<0, 1>>, "set"), B(<<1>>, "list"), B(<<1, 0>>, "list"), B(<<0, 1>>, "array")}
Ints == {I(<<0, 1>>, "default"), I(<<0, 1, 2, 3>>, "range"), I(<<3, 1, 2>>, "list"), I(<<-2, 0, 5>>, "set"),
         I(<<1, 4, 6>>, "array"), I(<<7>>, "list"), I(<<7>>, "scalar"), I(<<-3, -2, -1, 0, 1>>, "range"), I(<<5, -1>>, "list"),
         I(<<0, 100>>, "list"), I([i \in 1..30 |-> i * 100000], "list")}
Floats == {F(0, 8, 0, 0, "list"), F(0, 8, 1, 0, "list"), F(0, 8, 0, 1, "list"), F(0, 8, 1, 1, "list"),
           F(-4, 4, 1, 1, "tuple"), F(-4, 4, 0, 0, "set"), F(-4, 0, 0, 0, "array"), F(-8, 4, 0, 1, "back"), F(-8, 4, 1, 0, "back"),
           F(-INF, 4, 1, 0, "list"), F(-4, INF, 0, 1, "list"), F(-INF, INF, 1, 1, "default"), F(-INF, 0, 1, 1, "tuple"),
           F(-4, INF, 1, 1, "tuple"), F(4, 8, 1, 0, "back")}
Doms == (IF "bool" \in Types THEN Bools ELSE {}) \cup (IF "int" \in Types THEN Ints ELSE {}) \cup (IF "float" \in Types THEN Floats ELSE {})
Trs == {"none", "log2", "nlog2", "neg", "affine"}
Dir == CASE tr \in {"nlog2", "neg"} -> -1 [] OTHER -> 1

\* the positions asked about: inside, on and beyond every limit
Points(d) == IF d.ty = "bool" THEN {0, 1} ELSE IF d.ty = "int" THEN (-4..9) \cup {d.mem[1], d.mem[1] + 1}
             ELSE {-10, -8, -7, -5, -4, -3, -1, 0, 1, 2, 4, 5, 7, 8, 10}
Starts(d) == {j \in Points(d) : Inside(d, j)}
(**************************** evaluation ***********************************)
\* request: n > 0 count, 0 one random value, n < 0 that many random values
Place(d, n, i) ==  \* i-th of n evenly spaced positions, <<num, den>>
  LET den == IF n = 1 /\ d.xl = 0 /\ d.xh = 0 THEN 2
             ELSE n - 1 + d.xl + d.xh
      k == IF n = 1 /\ d.xl = 0 /\ d.xh = 0 THEN 1 ELSE i - 1 + d.xl
  IN <<d.lo * den + (d.hi - d.lo) * k, den>>
Cyc(d, n) == [i \in 1..n |-> <<d.mem[1 + ((i - 1) % Len(d.mem))], 1>>]
Eval(d, n) == IF d.ty # "float" THEN Cyc(d, n) ELSE [i \in 1..n |-> Place(d, n, i)]

(******************************* actions ***********************************)
Ask(a) == acts' = Append(acts, a) /\ UNCHANGED <<dom, tr, dl, redefs>>
Last == acts[Len(acts)]
Asking == acts # <<>> /\ Last.op \in {"define", "redefine", "ufun", "setdelta"}
NoDelta == [kind |-> "none", e |-> 0, b |-> 0, sc |-> 0]
Define == /\ acts = <<>>
          /\ \E d \in Doms : dom' = d /\ acts' = <<[op |-> "define", d |-> d]>>
          /\ tr' = "none" /\ dl' = NoDelta /\ redefs' = 0
Redefine == /\ Asking /\ redefs < Redefs
            /\ \E d \in Doms : /\ d.ty = dom.ty /\ d # dom /\ d.how \in {"list", "tuple", "back", "range", "array", "set"}
                               /\ dom' = d /\ acts' = Append(acts, [op |-> "redefine", d |-> d])
            /\ redefs' = redefs + 1 /\ UNCHANGED <<tr, dl>>
Ufun == /\ Asking /\ redefs < Redefs /\ dom.ty = "float"
        /\ \E t \in Trs \ {tr} : tr' = t /\ acts' = Append(acts, [op |-> "ufun", t |-> t])
        /\ redefs' = redefs + 1 /\ UNCHANGED <<dom, dl>>
\* scaled steps: a half of the length of a continuous domain, or the length of a discrete one
SetDelta == /\ Asking /\ redefs < Redefs /\ "default" \in Asks
            /\ \E k \in Kinds, e \in {0, 1, 2}, b \in {0, 1}, sc \in {0, 1} :
                 /\ sc = 1 => (dom.ty # "bool" /\ e = 1 /\ (dom.ty = "float" => Finite(dom)))
                 /\ dom.ty = "bool" => e < 2
                 /\ dl' = [kind |-> k, e |-> e, b |-> b, sc |-> sc]
                 /\ acts' = Append(acts, [op |-> "setdelta", dl |-> dl'])
            /\ redefs' = redefs + 1 /\ UNCHANGED <<dom, tr>>

AskInside == /\ Asking /\ "inside" \in Asks
             /\ LET S == SeqOf(Points(dom)) IN
                Ask([op |-> "inside", at |-> S, ans |-> [i \in 1..Len(S) |-> IF Inside(dom, S[i]) THEN 1 ELSE 0]])
Counts == {1, 2, 3, 5}
AskEval == /\ Asking /\ "eval" \in Asks
           /\ \/ \E n \in Counts : (dom.ty # "float" \/ Finite(dom)) /\ Ask([op |-> "eval", n |-> n, ans |-> Eval(dom, n)])
              \/ \E n \in {0, -1, -4, IF dom.ty = "float" THEN -400 ELSE -11} : (dom.ty # "float" \/ Finite(dom)) /\ Ask([op |-> "draw", n |-> n, ans |-> IF n < 0 /\ dom.ty # "float" THEN Cyc(dom, -n) ELSE <<>>])
              \/ dom.ty # "float" /\ Ask([op |-> "all", ans |-> dom.mem])
              \/ dom.ty = "float" /\ ~Finite(dom) /\ \E n \in {0, 3, -2} : Ask([op |-> "refuse", n |-> n])
              \/ LET S == SeqOf(Starts(dom)) IN Ask([op |-> "given", at |-> S])
Steps == IF dom.ty = "bool" THEN {0, 1} ELSE {-5, -4, -2, -1, 0, 1, 2, 4, 5}
Table(kind, e, b) == LET S == SeqOf(Starts(dom)) IN
  [i \in 1..Len(S) |-> SeqOf(Reach(Dir, dom, S[i], kind, e, b))]
AskStep == /\ Asking /\ \/ "fix" \in Asks /\ \E e \in Steps, b \in {0, 1} : Ask([op |-> "step", kind |-> "fix", e |-> e, b |-> b, at |-> SeqOf(Starts(dom)), ans |-> Table("fix", e, b)])
                        \/ "rand" \in Asks /\ \E k \in {"sign", "upto"}, e \in {0, 1, 4, -2}, b \in {0, 1} :
                             /\ dom.ty = "bool" => e \in {0, 1}
                             /\ e < 0 => k = "sign"
                             /\ Ask([op |-> "step", kind |-> k, e |-> e, b |-> b, at |-> SeqOf(Starts(dom)), ans |-> Table(k, e, b)])
\* the default step: scaled by the length of the domain at the time it is used
ScaledE == IF dl.sc = 0 THEN dl.e ELSE IF dom.ty = "float" THEN Length(dom) \div 2 ELSE dl.e * Length(dom)
AskDefault == /\ Asking /\ "default" \in Asks /\ dl.kind # "none" /\ (dl.sc = 1 /\ dom.ty = "float" => Finite(dom))
              /\ Ask([op |-> "default", kind |-> dl.kind, sc |-> dl.sc, e |-> dl.e, len |-> Length(dom), at |-> SeqOf(Starts(dom)),
                      ans |-> Table(dl.kind, ScaledE, dl.b)])
\* explicit steps are taken as they are, whatever the default step, its scaling and its bounds
AskExplicit == /\ Asking /\ "default" \in Asks /\ acts[Len(acts)].op = "setdelta"
               /\ \E k \in {"fix", "sign"}, e \in {1, -2} : LET b == 1 - dl.b IN
                     /\ dom.ty = "bool" => e = 1
                     /\ k = "sign" => e = 1
                     /\ Ask([op |-> "step", kind |-> k, e |-> e, b |-> b, at |-> SeqOf(Starts(dom)), ans |-> Table(k, e, b)])
Init == dom = F(0, 0, 0, 0, "none") /\ tr = "none" /\ dl = NoDelta /\ acts = <<>> /\ redefs = 0
Next == Define \/ Redefine \/ Ufun \/ SetDelta \/ AskInside \/ AskEval \/ AskStep \/ AskDefault \/ AskExplicit
Spec == Init /\ [][Next]_vars

(****************************** properties *********************************)
Defined == Asking
\* every value evaluated is in the domain (rational positions)
EvalInside == Defined /\ (dom.ty # "float" \/ Finite(dom)) =>
  \A n \in Counts : \A i \in 1..n : LET p == Eval(dom, n)[i] IN
    IF dom.ty # "float" THEN p[1] \in Mem(dom)
    ELSE /\ IF dom.xl = 1 THEN p[1] > dom.lo * p[2] ELSE p[1] >= dom.lo * p[2]
         /\ IF dom.xh = 1 THEN p[1] < dom.hi * p[2] ELSE p[1] <= dom.hi * p[2]
\* bounded steps never leave the domain
BoundInside == Defined => \A j \in Starts(dom), e \in Steps, k \in Kinds : (k = "fix" \/ e >= 0) =>
  \A r \in Outcomes(Dir, dom, j, k, e, 1) : Inside(dom, r)
\* unbounded fixed steps are undone by their opposite, and a bounded step that stays inside equals the unbounded one
StepExact == Defined => \A j \in Starts(dom), e \in Steps :
  /\ Target(Dir, dom, Target(Dir, dom, j, e), -e) = j
  /\ Inside(dom, Target(Dir, dom, j, e)) /\ dom.ty = "float" => Move(Dir, dom, j, e, 1) = Target(Dir, dom, j, e)
EmitEdge == PrintT("@@" \o ToJson([p |-> acts', r |-> <<>>]))
=============================================================================
