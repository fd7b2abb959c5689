------------------------------- MODULE VarOps -------------------------------
(* Domains of variables and what steps do in them, shared by the modules    *)
(* Var (one variable) and FldStep (fields of variables).                    *)
EXTENDS Integers, Sequences, FiniteSets
INF == 99
(******************************* domains **********************************)
\* members in order (discrete); how: the way the set is written down
B(m, how) == [ty |-> "bool", mem |-> m, how |-> how, lo |-> 0, hi |-> 0, xl |-> 0, xh |-> 0]
I(m, how) == [ty |-> "int", mem |-> m, how |-> how, lo |-> 0, hi |-> 0, xl |-> 0, xh |-> 0]
F(lo, hi, xl, xh, how) == [ty |-> "float", mem |-> <<>>, how |-> how, lo |-> lo, hi |-> hi, xl |-> xl, xh |-> xh]
Mem(d) == {d.mem[i] : i \in 1..Len(d.mem)}
Inside(d, j) == IF d.ty # "float" THEN j \in Mem(d)
                ELSE /\ IF d.xl = 1 THEN j > d.lo ELSE j >= d.lo
                     /\ IF d.xh = 1 THEN j < d.hi ELSE j <= d.hi
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
SetMin(S) == CHOOSE a \in S : \A b \in S : a <= b
SetMax(S) == CHOOSE a \in S : \A b \in S : a >= b
Finite(d) == d.lo > -INF /\ d.hi < INF
Length(d) == IF d.ty = "float" THEN d.hi - d.lo ELSE Len(d.mem)

SeqOf(S) == LET RECURSIVE f(_)
                f(T) == IF T = {} THEN <<>> ELSE <<SetMin(T)>> \o f(T \ {SetMin(T)}) IN f(S)

(******************************* steps *************************************)
\* e: signed step in the transformed space
Target(dir, d, j, e) == IF d.ty = "bool" THEN (j + e) % 2 ELSE j + dir * e
Bound(d, j, t) ==
  IF d.ty # "float" THEN LET c == Max2(SetMin(Mem(d)), Min2(SetMax(Mem(d)), t)) IN IF c \in Mem(d) THEN c ELSE j
  ELSE IF t <= d.lo THEN (IF d.xl = 1 THEN j ELSE d.lo)
  ELSE IF t >= d.hi THEN (IF d.xh = 1 THEN j ELSE d.hi)
  ELSE t
Move(dir, d, j, e, b) == LET t == Target(dir, d, j, e) IN IF b = 1 THEN Bound(d, j, t) ELSE t
\* kinds of step: fixed e, random sign +-e, random up to e
Outcomes(dir, d, j, kind, e, b) ==
  CASE kind = "fix" -> {Move(dir, d, j, e, b)}
    [] kind = "sign" -> IF d.ty = "bool" THEN (IF e = 0 THEN {j} ELSE {Move(dir, d, j, 0, b), Move(dir, d, j, 1, b)})
                        ELSE {Move(dir, d, j, e, b), Move(dir, d, j, -e, b)}
    [] kind = "upto" -> IF d.ty = "bool" THEN (IF e = 0 THEN {j} ELSE {Move(dir, d, j, 1, b)})
                        ELSE {Move(dir, d, j, x, b) : x \in (-Max2(e, -e))..Max2(e, -e)}

Kinds == {"fix", "sign", "upto"}
\* a continuous random step reaches an interval (without excluded limits): its ends
Hull(d, j, e, b) == IF b = 1 THEN {Max2(d.lo, j - e), Min2(d.hi, j + e)} ELSE {j - e, j + e}
Reach(dir, d, j, kind, e, b) == IF kind = "upto" /\ d.ty = "float" THEN Hull(d, j, e, b) ELSE Outcomes(dir, d, j, kind, e, b)
=============================================================================
