------------------------------ MODULE ChainOps -----------------------------
(***************************************************************************)
(* What one draw of a sampling chain is: the target distribution of its    *)
(* process, the proposal's forward and reverse probabilities, the score of *)
(* a proposal, the verdict of the update rule and the next state.          *)
(* States are sequences of integers, one per variable; probabilities are   *)
(* exact rationals.                                                        *)
(***************************************************************************)
EXTENDS Rat, FiniteSets
Null == <<>>      \* no state, no number, no entry

(******************************* targets ***********************************)
Tab4(k) == CASE k = 1 -> <<1, 2, 4, 1>> [] k = 2 -> <<4, 0, 1, 3>> [] OTHER -> <<2, 2, 3, 1>>
Tab3 == <<1, 2, 5>>
\* a bit given the parameter: one with probability (1 + 2 mu) / 8
Lik(bit, mu) == IF bit = 1 THEN Norm(1 + 2 * mu, 8) ELSE Norm(7 - 2 * mu, 8)
Data == <<1, 0, 1>>
In4(v) == v \in 0..3
In3(v) == v \in 0..2
Target(t, s) ==
  CASE t = "one" -> IF In4(s[1]) THEN Norm(Tab4(1)[s[1] + 1], 8) ELSE RZero
    [] t = "onez" -> IF In4(s[1]) THEN Norm(Tab4(2)[s[1] + 1], 8) ELSE RZero
    \* a joint function of two variables
    [] t = "two" -> IF In4(s[1]) /\ In3(s[2]) THEN Norm(1 + ((s[1] + 2 * s[2]) % 4), 16) ELSE RZero
    \* two independent variables
    [] t = "indep" -> IF In4(s[1]) /\ In3(s[2]) THEN RMul(Norm(Tab4(3)[s[1] + 1], 8), Norm(Tab3[s[2] + 1], 8)) ELSE RZero
    \* parameter given data, as prior times likelihood
    [] t = "post" -> IF In4(s[1]) THEN RMul(Norm(Tab4(1)[s[1] + 1], 8), RProdSeq([i \in 1..Len(Data) |-> Lik(Data[i], s[1])])) ELSE RZero

(****************************** proposals **********************************)
\* a code for the state, so that a proposal function can depend on all of it
Code(s) == IF Len(s) = 1 THEN s[1] ELSE s[1] + 3 * s[2]
Fwd(pr, s, n) == CASE pr = "sym" -> Norm(1 + (Abs(Code(s) - Code(n)) % 2), 4)
                   [] pr = "dual" -> Norm(1 + ((2 * Code(s) + Code(n) + 40) % 3), 4)
                   [] pr = "dualz" -> Norm((2 * Code(s) + Code(n) + 40) % 3, 4)
                   [] OTHER -> RZero
\* the probability of proposing to go back
Rev(pr, s, n) == IF pr = "sym" THEN Null ELSE Fwd(pr, n, s)
Add(s, d) == [i \in 1..Len(s) |-> s[i] + d[i]]

(******************************* acceptance ********************************)
MinOne(a) == RMin(a, ROne)
Score(c, last, n) ==
  CASE c.rule \in {"none", "gibbs"} -> Null
    [] c.rule = "custom" -> Target(c.tgt, n)
    [] last = Null -> Null
    [] c.rule = "metropolis" \/ c.pr = "sym" -> MinOne(RDiv(Target(c.tgt, n), Target(c.tgt, last)))
    [] OTHER -> MinOne(RDiv(RMul(Target(c.tgt, n), Rev(c.pr, last, n)), RMul(Target(c.tgt, last), Fwd(c.pr, last, n))))
\* what the update rule says: "yes", "no" (counted as the previous state), "veto" (not counted), "none" (no rule)
Verdict(c, last, n, th) ==
  CASE c.rule = "none" -> "none"
    [] c.rule = "gibbs" -> "yes"
    [] c.rule = "custom" -> IF RLe(th, Score(c, last, n)) THEN "yes" ELSE "veto"
    [] Score(c, last, n) = Null -> "yes"
    [] OTHER -> IF RLe(th, Score(c, last, n)) THEN "yes" ELSE "no"
Accepted(c, last, n, th) == last = Null \/ Verdict(c, last, n, th) \in {"yes", "none"}
\* the report of a draw from `from` (the last accepted state, or the initial one when last is Null)
At(c, s) == [s |-> s, p |-> Target(c.tgt, s)]
Sample(c, init, last, n, th) ==
  LET from == IF last = Null THEN init ELSE last IN
  [o |-> IF last = Null THEN Null ELSE <<At(c, last)>>, p |-> At(c, n),
   q |-> [from |-> from, to |-> n, p |-> Fwd(c.pr, from, n)],
   r |-> IF Rev(c.pr, from, n) = Null THEN Null ELSE <<[from |-> from, to |-> n, p |-> Rev(c.pr, from, n)]>>,
   s |-> Score(c, last, n), t |-> IF c.rule \in {"none", "gibbs"} THEN Null ELSE th, u |-> Verdict(c, last, n, th),
   v |-> IF Accepted(c, last, n, th) THEN At(c, n) ELSE At(c, last)]
=============================================================================
