------------------------------ MODULE FldStep ------------------------------
(***************************************************************************)
(* Steps of a field: a default step is declared for the whole field (one   *)
(* amount for all, one per variable, with or without exceptions, scaled or *)
(* not, bounded or not, or spherical) and applied repeatedly.  Each        *)
(* variable receives its own step, in its own domain.                      *)
(***************************************************************************)
EXTENDS VarOps, TLC, Json
CONSTANTS Fields,   \* set of sequences of variable names
          Repeats,
          Redefs
VARIABLES fld, dl, pos, acts, redefs
vars == <<fld, dl, pos, acts, redefs>>

Dom(v) == CASE v = "x" -> F(0, 8, 0, 0, "list") [] v = "y" -> F(-4, 8, 1, 1, "tuple") [] v = "z" -> F(0, 4, 1, 0, "list")
            [] v = "n" -> I(<<0, 1, 2, 3, 4>>, "range") [] v = "m" -> I(<<-1, 2, 5>>, "list") [] v = "b" -> B(<<0, 1>>, "default")
Start(v) == CASE v = "x" -> {2, 8} [] v = "y" -> {-2} [] v = "z" -> {1} [] v = "n" -> {0, 3} [] v = "m" -> {2} [] v = "b" -> {0, 1}
Vs == {fld[i] : i \in 1..Len(fld)}
Uniform == (\A v \in Vs : Dom(v).ty = "float") \/ (\A v \in Vs : Dom(v).ty = "int")
Isbool(v) == Dom(v).ty = "bool"
\* how: amounts per variable as [kind, e, sc]; scaled amounts are halves of continuous lengths, multiples of discrete ones
Amt(v, k, e, sc) == [kind |-> k, e |-> e, sc |-> sc]
Eff(v, a) == IF a.sc = 0 THEN a.e ELSE IF Dom(v).ty = "float" THEN a.e * (Length(Dom(v)) \div 2) ELSE a.e * Length(Dom(v))
Form(how, per, b, norm) == [how |-> how, per |-> per, b |-> b, norm |-> norm]
None == Form("none", <<>>, 0, 0)
Make == /\ acts = <<>> /\ \E f \in Fields : fld' = f /\ acts' = <<[op |-> "field", vars |-> [i \in 1..Len(f) |-> [v |-> f[i], d |-> Dom(f[i])]]]>>
        /\ UNCHANGED <<dl, pos, redefs>>
SetForm(fm) == dl' = fm /\ acts' = Append(acts, [op |-> "setdelta", dl |-> fm]) /\ redefs' = redefs + 1 /\ pos' = <<>> /\ UNCHANGED fld
Each(P(_)) == [i \in 1..Len(fld) |-> P(fld[i])]
OddE(v) == IF Isbool(v) THEN 1 ELSE IF v \in {"x", "n"} THEN 3 ELSE -2
KindOf(v, r) == LET k == (CASE v = "x" -> 0 [] v = "y" -> 1 [] v = "z" -> 2 [] v = "n" -> 1 [] v = "m" -> 2 [] OTHER -> 0) + r
                IN CASE k % 3 = 0 -> "fix" [] k % 3 = 1 -> "sign" [] OTHER -> "upto"
Abs(i) == IF i < 0 THEN -i ELSE i
SetDelta ==
  /\ fld # <<>> /\ redefs < Redefs
  /\ \E b \in {0, 1} :
       \/ \E e \in {0, 1, 2} : (e < 2 \/ ~(\E v \in Vs : Isbool(v))) /\ SetForm(Form("scalar", Each(LAMBDA v : Amt(v, "fix", e, 0)), b, 0))
       \/ \E e \in {0, 1} : SetForm(Form("list", Each(LAMBDA v : Amt(v, "upto", e, 0)), b, 0))
       \/ Uniform /\ SetForm(Form("scalar", Each(LAMBDA v : Amt(v, "fix", 1, 1)), b, 0))
       \/ Uniform /\ SetForm(Form("list", Each(LAMBDA v : Amt(v, "upto", 1, 1)), b, 0))
       \/ \E r \in 0..2, h \in {"dict", "Delta"} :
            SetForm(Form(h, Each(LAMBDA v : Amt(v, KindOf(v, r), IF KindOf(v, r) = "fix" THEN OddE(v) ELSE Abs(OddE(v)), 0)), b, 0))
       \* one amount with exceptions: the last variable has its own, unscaled
       \/ \E h \in {"scalar", "list"}, sc \in {0, 1} :
            /\ Len(fld) > 1 /\ (sc = 1 => Uniform)
            /\ SetForm(Form(h \o "-but", [i \in 1..Len(fld) |-> IF i = Len(fld) THEN Amt(fld[i], IF h = "list" THEN "upto" ELSE "fix", 1, 0)
                                                               ELSE Amt(fld[i], IF h = "list" THEN "upto" ELSE "fix", 1, sc)], b, 0))
       \* spherical: the amounts of the variables have the given norm
       \/ \E e \in {1, 2} : (\A v \in Vs : Dom(v).ty = "float") /\ SetForm(Form("sphere", Each(LAMBDA v : Amt(v, "upto", e, 0)), b, e))
       \/ Len(fld) > 1 /\ (\A i \in 1..(Len(fld) - 1) : Dom(fld[i]).ty = "float") /\
            SetForm(Form("sphere-but", [i \in 1..Len(fld) |-> IF i = Len(fld) THEN Amt(fld[i], "fix", 1, 0) ELSE Amt(fld[i], "upto", 2, 0)], b, 2))
       \* a single variable's own default is used by its field
       \/ Len(fld) = 1 /\ redefs = 0 /\ \E k \in Kinds : SetForm(Form("own", Each(LAMBDA v : Amt(v, k, 1, 0)), b, 0))
Begin == /\ dl.how # "none" /\ pos = <<>>
         /\ \E p \in [1..Len(fld) -> UNION {Start(v) : v \in Vs}] :
              /\ \A i \in 1..Len(fld) : p[i] \in Start(fld[i])
              /\ pos' = [i \in 1..Len(fld) |-> {p[i]}]
              /\ acts' = Append(acts, [op |-> "begin", at |-> [i \in 1..Len(fld) |-> p[i]]])
         /\ UNCHANGED <<fld, dl, redefs>>
\* the set of positions (or, for continuous random steps, the interval) reachable by one more step
Ways == {"auto", "eval", "given", "array"}
Apply == /\ pos # <<>> /\ acts[Len(acts)].op \in {"begin"}
         /\ \E w \in Ways :
              acts' = Append(acts, [op |-> "apply", how |-> w, norm |-> dl.norm, b |-> dl.b,
                 ans |-> [i \in 1..Len(fld) |-> SeqOf(UNION {Reach(1, Dom(fld[i]), j, dl.per[i].kind, Eff(fld[i], dl.per[i]), dl.b) : j \in pos[i]})]])
         /\ UNCHANGED <<fld, dl, pos, redefs>>
Init == fld = <<>> /\ dl = None /\ pos = <<>> /\ acts = <<>> /\ redefs = 0
Next == Make \/ SetDelta \/ Begin \/ Apply
Spec == Init /\ [][Next]_vars
\* bounded steps stay inside the domains
Stay == dl.b = 1 /\ pos # <<>> => \A i \in 1..Len(fld) : \A j \in pos[i] :
           \A r \in Outcomes(1, Dom(fld[i]), j, dl.per[i].kind, Eff(fld[i], dl.per[i]), 1) : Inside(Dom(fld[i]), r)
EmitEdge == PrintT("@@" \o ToJson([p |-> acts', r |-> <<>>]))
=============================================================================
