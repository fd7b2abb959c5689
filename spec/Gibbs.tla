------------------------------- MODULE Gibbs -------------------------------
(***************************************************************************)
(* Coordinate-wise transitions.  A behaviour declares a field or process   *)
(* of several variables with a conditional sampling function: one for each *)
(* variable in turn, or one for groups of variables in an order of their   *)
(* own, a number of groups at a time or all at once; then it steps, from   *)
(* where it is or from elsewhere, forwards or in reverse, redeclares, or   *)
(* draws from a sampler.  The conditional value of a variable depends on   *)
(* the current values of all the others, so every deviation in schedule or *)
(* in what a conditional is given shows.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ns, Hosts, Tsteps, Depth, Redeclares
VARIABLES n, dec, pos, cur, upd, acts
vars == <<n, dec, pos, cur, upd, acts>>
M == 11
Single(k) == [i \in 1..k |-> <<i>>]
Rev(k) == [i \in 1..k |-> <<k + 1 - i>>]
\* declared orders: of single variables and of groups
Orders(k) == {Single(k), Rev(k)} \cup
  (CASE k = 2 -> {<< <<2, 1>> >>}
     [] k = 3 -> {<< <<3>>, <<2, 1>> >>, << <<1, 3>>, <<2>> >>, << <<2>>, <<3>>, <<1>> >>, << <<1, 2, 3>> >>}
     [] k = 4 -> {<< <<4>>, <<1, 3>>, <<2>> >>, << <<2, 1>>, <<4, 3>> >>, << <<3>>, <<1>>, <<4>>, <<2>> >>}
     [] OTHER -> {})
\* how: "plain" one function, "pair" forward and reverse, "list"/"tuple"/"dict" explicit groups
Decs(k) == {[how |-> h, order |-> Single(k), ts |-> t, tran |-> r] : h \in {"plain", "pair"}, t \in Tsteps, r \in {0, 1}}
      \cup {[how |-> h, order |-> o, ts |-> t, tran |-> r] : h \in {"list", "tuple", "dict", "cf"}, o \in Orders(k), t \in Tsteps, r \in {0, 1}}
RECURSIVE Dot(_, _)
Dot(v, i) == IF i = 0 THEN 0 ELSE (i + 1) * v[i] + Dot(v, i - 1)
\* the conditional of variable i; group g when asked for together
New(v, i, g, rev) == (Dot(v, Len(v)) + 3 * i + 5 * rev + g) % M
GroupCode(g) == IF Len(g) = 1 THEN 0 ELSE 2 * g[1] + Len(g)
Update(v, g, rev) == [i \in 1..Len(v) |-> IF \E j \in 1..Len(g) : g[j] = i THEN New(v, i, GroupCode(g), rev) ELSE v[i]]
RECURSIVE Sweep(_, _, _)
Sweep(v, gs, rev) == IF gs = <<>> THEN v ELSE Sweep(Update(v, Head(gs), rev), Tail(gs), rev)
Chosen(d, p) == IF d.ts = 0 THEN d.order
                ELSE SubSeq(d.order, p + 1, IF p + d.ts > Len(d.order) THEN Len(d.order) ELSE p + d.ts)
Advance(d, p) == IF d.ts = 0 THEN p ELSE IF p + d.ts >= Len(d.order) THEN 0 ELSE p + d.ts
\* transition probability in quarters, or none
Prob(d, v, w, rev) == IF d.tran = 0 THEN 4 ELSE 1 + ((Dot(v, Len(v)) + 2 * Dot(w, Len(w)) + rev) % 3)

Init == n = 0 /\ dec = <<>> /\ pos = 0 /\ cur = <<>> /\ upd = <<>> /\ acts = <<>>
Start(k) == [i \in 1..k |-> (2 * i) % M]
Declare == /\ acts = <<>>
           /\ \E k \in Ns, h \in Hosts : \E d \in Decs(k) :
                /\ (h = "field" \/ d.how # "pair") /\ (h # "field" => d.tran = 0)
                /\ n' = k /\ dec' = <<d, h>> /\ pos' = 0 /\ cur' = Start(k) /\ upd' = [i \in 1..k |-> 0]
                /\ acts' = <<[op |-> "declare", n |-> k, host |-> h, d |-> d, init |-> Start(k)]>>
Live == acts # <<>> /\ Len(acts) <= Depth
Redeclared == Cardinality({i \in 1..Len(acts) : acts[i].op = "redeclare"})
Redeclare == /\ Live /\ dec[2] = "field" /\ Redeclared < Redeclares /\ acts[Len(acts)].op # "redeclare"
             /\ \E d \in {x \in Decs(n) : x.tran = dec[1].tran /\ (x.ts # 0) /\ (x.how \in {"plain", "dict"})} :
                  /\ dec' = <<d, dec[2]>> /\ pos' = 0 /\ upd' = [i \in 1..n |-> 0]
                  /\ acts' = Append(acts, [op |-> "redeclare", d |-> d])
             /\ UNCHANGED <<n, cur>>
Moves(op, from, rev, form) ==
  LET d == dec[1]
      gs == Chosen(d, pos)
      to == Sweep(from, gs, rev)
  IN /\ cur' = to /\ pos' = Advance(d, pos)
     /\ upd' = [i \in 1..n |-> upd[i] + (IF \E a \in 1..Len(gs) : \E b \in 1..Len(gs[a]) : gs[a][b] = i THEN 1 ELSE 0)]
     /\ acts' = Append(acts, [op |-> op, from |-> from, to |-> to, rev |-> rev, form |-> form, p |-> Prob(d, from, to, rev)])
     /\ UNCHANGED <<n, dec>>
\* form: how the values are given: 0 in order, 1 in reverse order, 2 some together
Step == /\ Live /\ dec[2] = "field"
        /\ \E rev \in 0..1, form \in 0..2, there \in 0..1 :
             /\ (rev = 1 => dec[1].how = "pair") /\ (there = 1 => form = 1) /\ (form = 2 => n > 2)
             /\ Moves("step", IF there = 1 THEN [i \in 1..n |-> (7 * i + 3) % M] ELSE cur, rev, form)
Draw == Live /\ dec[2] # "field" /\ Moves("draw", cur, 0, 0)
\* groups of an explicit order have no reverse
Refuse == /\ Live /\ dec[2] = "field" /\ dec[1].how \notin {"plain", "pair"} /\ acts[Len(acts)].op = "declare" /\ dec[1].ts < 2
          /\ acts' = Append(acts, [op |-> "refuse", from |-> cur]) /\ UNCHANGED <<n, dec, pos, cur, upd>>
Next == Declare \/ Redeclare \/ Step \/ Draw \/ Refuse
Spec == Init /\ [][Next]_vars

(****************************** properties *********************************)
\* every round updates every variable once
Fair == acts # <<>> => \A i, j \in 1..n : upd[i] - upd[j] \in {-1, 0, 1} /\ (pos = 0 => upd[i] = upd[j])
\* what was not scheduled stays
Others == [][(acts # <<>> /\ acts'[Len(acts')].op \in {"step", "draw"}) =>
              \A i \in 1..n : upd'[i] = upd[i] => acts'[Len(acts')].to[i] = acts'[Len(acts')].from[i]]_vars
EmitEdge == PrintT("@@" \o ToJson([p |-> acts', r |-> <<>>]))
=============================================================================
