------------------------------- MODULE Quant -------------------------------
(* Quantiles of a one-variable distribution.  A behaviour fixes ascending   *)
(* values and weights, then asks for levels k/Den in increasing order.  The *)
(* specification allows any answer between the value before and the value   *)
(* at which the cumulative weight first exceeds the level (the first two    *)
(* values if that is the first one), never smaller than an earlier answer.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, MaxW, Den, Scales
VARIABLES tab, acts, lo, hi
vars == <<tab, acts, lo, hi>>

Vals(n) == CASE n = 1 -> <<3>> [] n = 2 -> <<-1, 4>> [] n = 3 -> <<0, 1, 7>> [] n = 4 -> <<-6, -2, 3, 4>>
             [] n = 5 -> <<1, 2, 3, 9, 10>> [] OTHER -> [i \in 1..n |-> i * i]
RECURSIVE Sum(_, _)
Sum(w, i) == IF i = 0 THEN 0 ELSE w[i] + Sum(w, i - 1)
\* index at which the cumulative weight first exceeds level k/Den (Len if never)
Cross(w, k) == LET S == {i \in 1..Len(w) : Sum(w, i) * Den > k * Sum(w, Len(w))}
               IN IF S = {} THEN Len(w) + 1 ELSE CHOOSE i \in S : \A j \in S : i <= j
\* ... or reaches it: at a tie, answers on either side of the step are quantiles
Reach(w, k) == LET S == {i \in 1..Len(w) : Sum(w, i) * Den >= k * Sum(w, Len(w))}
               IN CHOOSE i \in S : \A j \in S : i <= j
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
LoIdx(w, k) == Max2(1, Reach(w, k) - 1)
HiIdx(w, k) == Min2(Len(w), Max2(2, Cross(w, k)))

Init == tab = <<>> /\ acts = <<>> /\ lo = 0 /\ hi = 0
Pick == /\ tab = <<>>
        /\ \E n \in 1..MaxLen : \E w \in [1..n -> 0..MaxW] : \E s \in Scales :
             /\ Sum(w, n) > 0 /\ (n > 3 => \A i \in 1..n : w[i] # 2)
             /\ tab' = [v |-> Vals(n), w |-> [i \in 1..n |-> w[i]]]
             /\ acts' = <<[op |-> "pick", v |-> Vals(n), w |-> [i \in 1..n |-> w[i]], s |-> s]>>
             /\ UNCHANGED <<lo, hi>>
Ask == /\ tab # <<>> /\ Len(acts) - 1 <= Den
       /\ LET k == Len(acts) - 1
              a == LoIdx(tab.w, k)  b == HiIdx(tab.w, k)
          IN /\ lo' = tab.v[a] /\ hi' = tab.v[b]
             /\ acts' = Append(acts, [op |-> "ask", k |-> k, lo |-> tab.v[a], hi |-> tab.v[b]])
       /\ UNCHANGED tab
Next == Pick \/ Ask
Spec == Init /\ [][Next]_vars
Sane == tab # <<>> /\ Len(acts) > 1 => lo <= hi /\ tab.v[1] <= lo /\ hi <= tab.v[Len(tab.v)]
Monotone == [][Len(acts) > 1 => lo <= lo' /\ hi <= hi']_vars
EmitEdge == PrintT("@@" \o ToJson([p |-> acts', r |-> <<>>]))
=============================================================================
