------------------------------- MODULE Scales ------------------------------
(***************************************************************************)
(* Numbers on probability scales.  A scale is a coefficient of linear      *)
(* numbers or an offset of logarithms; a number stored on it denotes that  *)
(* number times the coefficient (or the exponential of the offset).        *)
(* Stored numbers and scales are kept exactly, as rationals times powers   *)
(* of e.  A behaviour stores scalars and arrays and converts, multiplies   *)
(* and divides them, with or without asking for the scale of the result.   *)
(* The plain numbers meant (ghost) are computed without any scale.         *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, TLC, Json
CONSTANTS Vecs, Ons, Depth, Thin
VARIABLES regs, ghost, acts
vars == <<regs, ghost, acts>>
None == 0
SS == << [lg |-> 0, c |-> ROne, o |-> 0, im |-> 0],
         [lg |-> 0, c |-> <<1, 2>>, o |-> 0, im |-> 0],
         [lg |-> 0, c |-> <<3, 1>>, o |-> 0, im |-> 0],
         [lg |-> 1, c |-> ROne, o |-> 0, im |-> 0],
         [lg |-> 1, c |-> ROne, o |-> 2, im |-> 0],
         [lg |-> 1, c |-> ROne, o |-> -3, im |-> 0],
         [lg |-> 1, c |-> ROne, o |-> 2, im |-> 1],     \* an imaginary part reverses the sign of the offset
         [lg |-> 0, c |-> ROne, o |-> 1, im |-> 0],
         [lg |-> 1, c |-> ROne, o |-> 1, im |-> 0] >>
Off(s) == IF s.im = 1 THEN -s.o ELSE s.o
VS == << <<<<1, 4>>>>, <<RZero>>, <<<<1, 2>>, <<0, 1>>, <<1, 8>>>>, <<<<3, 4>>, <<1, 4>>, <<0, 1>>>>, <<<<2, 1>>, <<1, 1>>, <<1, 3>>>> >>
\* numbers m e^k
X(m, k) == IF m[1] = 0 THEN <<RZero, 0>> ELSE <<m, k>>
XMul(a, b) == X(RMul(a[1], b[1]), a[2] + b[2])
XDiv(a, b) == IF a[1][1] = 0 THEN <<RZero, 0>> ELSE X(RDiv(a[1], b[1]), a[2] - b[2])
Fac(s) == <<s.c, Off(s)>>
Means(r) == [i \in 1..Len(r.x) |-> XMul(r.x[i], Fac(r.s))]
Put(v, s) == [i \in 1..Len(v) |-> XDiv(v[i], Fac(s))]
Size(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
At(a, i) == IF Len(a) = 1 THEN a[1] ELSE a[i]
Rescaled(r, t) == [x |-> [i \in 1..Len(r.x) |-> XDiv(XMul(r.x[i], Fac(r.s)), Fac(t))], s |-> t]
\* the natural scale of a product
Natural(ss, lg) == LET f[i \in 0..Len(ss)] == IF i = 0 THEN <<ROne, 0>> ELSE XMul(f[i - 1], Fac(ss[i]))
                   IN [lg |-> lg, c |-> f[Len(ss)][1], o |-> f[Len(ss)][2], im |-> 0]
RECURSIVE Mul(_, _)
Mul(rs, n) == IF n = 1 THEN rs[1] ELSE LET p == Mul(rs, n - 1) IN [i \in 1..Size(p, rs[n]) |-> XMul(At(p, i), At(rs[n], i))]
UseLog(ss, use) == IF use = 2 THEN (IF \E i \in 1..Len(ss) : ss[i].lg = 1 THEN 1 ELSE 0) ELSE use
Product(rs, use, to) ==
  LET ss == [i \in 1..Len(rs) |-> rs[i].s]
      nat == [x |-> Mul([i \in 1..Len(rs) |-> rs[i].x], Len(rs)), s |-> Natural(ss, UseLog(ss, use))]
  IN IF to = None THEN nat ELSE Rescaled(nat, SS[to])
Quotient(a, b, to) ==
  LET v == [i \in 1..Size(a.x, b.x) |-> XDiv(At(Means(a), i), At(Means(b), i))]
      t == IF to = None THEN a.s ELSE SS[to]
  IN [x |-> Put(v, t), s |-> t]
Divisible(a, b) == \A i \in 1..Size(a.x, b.x) : At(b.x, i)[1][1] # 0

Init == regs = <<>> /\ ghost = <<>> /\ acts = <<>>
Store == /\ Len(acts) < 2
         /\ \E v \in Vecs, s \in Ons :
              /\ regs' = Append(regs, [x |-> Put([i \in 1..Len(VS[v]) |-> <<VS[v][i], 0>>], SS[s]), s |-> SS[s]])
              /\ ghost' = Append(ghost, [i \in 1..Len(VS[v]) |-> VS[v][i]])
              /\ acts' = Append(acts, [op |-> "store", v |-> VS[v], s |-> SS[s], q |-> v + 5 * s])
N == Len(regs)
Idx == 0..Len(SS)
Done == Len(acts) >= 2 + Depth
Step(a, r, g) == regs' = Append(regs, r) /\ ghost' = Append(ghost, g) /\ acts' = Append(acts, a @@ [r |-> [x |-> r.x, s |-> r.s], g |-> g])
\* one question in Thin is asked
Keep(h) == (h + acts[1].q + 2 * acts[2].q + 3 * Len(acts)) % Thin = 0
Convert == /\ Len(acts) >= 2 /\ ~Done
           /\ \E i \in 1..N, t \in 1..Len(SS) : /\ Keep(i + 3 * t + Len(acts))
                /\ Step([op |-> "rescale", i |-> i, t |-> t], Rescaled(regs[i], SS[t]), ghost[i])
Multiply == /\ Len(acts) >= 2 /\ ~Done
            /\ \E is \in {<<i>> : i \in 1..N} \cup {<<i, j>> : i, j \in 1..N} \cup {<<1, 2, N>>}, use \in 0..2, to \in Idx :
                 /\ Keep(is[1] + 5 * is[Len(is)] + 7 * use + 3 * to)
                 /\ \A k \in 1..Len(is) : is[k] <= N
                 /\ Step([op |-> "prod", is |-> is, use |-> use, to |-> to], Product([k \in 1..Len(is) |-> regs[is[k]]], use, to),
                         [q \in 1..Len(Mul([k \in 1..Len(is) |-> regs[is[k]].x], Len(is))) |->
                            RProdSeq([k \in 1..Len(is) |-> At(ghost[is[k]], q)])])
Divide == /\ Len(acts) >= 2 /\ ~Done
          /\ \E i, j \in 1..N, to \in Idx : /\ Divisible(regs[i], regs[j]) /\ Keep(i + 5 * j + 3 * to)
               /\ Step([op |-> "div", i |-> i, j |-> j, to |-> to], Quotient(regs[i], regs[j], to),
                       [q \in 1..Size(ghost[i], ghost[j]) |-> PDiv(At(ghost[i], q), At(ghost[j], q))])
Next == Store \/ Convert \/ Multiply \/ Divide
Spec == Init /\ [][Next]_vars

(****************************** properties *********************************)
\* whatever the scales, what is stored denotes the plain number
Denotes == \A i \in 1..N : Means(regs[i]) = [q \in 1..Len(ghost[i]) |-> <<ghost[i][q], 0>>]
\* converting there and back restores what was stored
There == \A i \in 1..N, t \in 1..Len(SS) : Rescaled(Rescaled(regs[i], SS[t]), regs[i].s) = regs[i]
EmitEdge == PrintT("@@" \o ToJson([p |-> acts', r |-> <<>>]))
=============================================================================
