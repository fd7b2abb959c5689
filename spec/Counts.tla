------------------------------- MODULE Counts ------------------------------
(***************************************************************************)
(* Boolean tables and binary codes.  A behaviour writes a table row by     *)
(* row, keeping the number of rows of each combination, and then asks for  *)
(* the counts, for the relative frequencies, or for the likelihood of an   *)
(* assignment that fixes some columns and leaves others open, in any order *)
(* of the columns; or it encodes a number and decodes it again.  Numbers   *)
(* are sequences of binary digits, so they may exceed any machine word.    *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, TLC, Json
CONSTANTS Widths, MaxCells, Bases, MaxBits, Longs
VARIABLES w, tab, cnt, acts
vars == <<w, tab, cnt, acts>>
B == {0, 1}
Combos(n) == [1..n -> B]
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
RECURSIVE Total(_, _)
Total(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Total(f, S \ {x})
\* relative frequency of a combination, with a base count for each
Rel(c, b) == Norm(cnt[c] + b, Len(tab) + b * Cardinality(Combos(w)))
\* every combination in row-major order
RECURSIVE Rows(_)
Rows(n) == IF n = 0 THEN << <<>> >> ELSE LET r == Rows(n - 1) IN [i \in 1..(2 * Len(r)) |-> r[((i - 1) \div 2) + 1] \o <<(i - 1) % 2>>]
AsSeq(f) == [i \in 1..w |-> f[i]]

Init == w = 0 /\ tab = <<>> /\ cnt = <<>> /\ acts = <<>>
Start == acts = <<>> /\ \E n \in Widths :
           w' = n /\ tab' = <<>> /\ cnt' = [c \in Combos(n) |-> 0] /\ acts' = <<[op |-> "table", w |-> n]>>
Row == /\ w > 0 /\ Len(tab) < MaxCells \div w /\ Len(acts) = Len(tab) + 1
       /\ \E c \in Combos(w) : tab' = Append(tab, AsSeq(c)) /\ cnt' = [cnt EXCEPT ![c] = @ + 1]
                               /\ acts' = Append(acts, [op |-> "row", c |-> AsSeq(c)]) /\ UNCHANGED w
Ready == w > 0 /\ tab # <<>> /\ Len(acts) = Len(tab) + 1
Ask(a) == acts' = Append(acts, a) /\ UNCHANGED <<w, tab, cnt>>
AskCounts == Ready /\ \E b \in Bases :
               Ask([op |-> "counts", base |-> b, n |-> [i \in 1..Len(Rows(w)) |-> cnt[Rows(w)[i]] + b],
                    rel |-> [i \in 1..Len(Rows(w)) |-> Rel(Rows(w)[i], b)]])
\* an assignment fixes a column (0 or 1) or leaves it open (2); the answer lists the open combinations in
\* row-major order of the columns as arranged by o
Fits(c, q) == \A i \in 1..w : q[i] = 2 \/ c[i] = q[i]
Arranged(o) == LET r == Rows(w) IN [k \in 1..Len(r) |-> [i \in 1..w |-> r[k][CHOOSE j \in 1..w : o[j] = i]]]
AskLik == Ready /\ \E o \in Perms(w), q \in [1..w -> {0, 1, 2}], b \in Bases, k \in 0..1 :
            /\ (b # 0 => o = [i \in 1..w |-> i])
            /\ LET cs == SelectSeq(Arranged(o), LAMBDA c : Fits(c, q))
               IN Ask([op |-> "lik", o |-> AsSeq(o), q |-> AsSeq(q), base |-> b, kind |-> k, ans |-> [i \in 1..Len(cs) |-> Rel(cs[i], b)]])

(******************************* codes *************************************)
RECURSIVE Strip(_)
Strip(s) == IF Len(s) <= 1 \/ s[1] = 1 THEN s ELSE Strip(Tail(s))
RECURSIVE Pad(_, _)
Pad(s, n) == IF Len(s) >= n THEN s ELSE Pad(<<0>> \o s, n)
Seqs(n) == UNION {[1..k -> B] : k \in 1..n}
LongSeqs == {<<1>> \o [i \in 1..(n - 3) |-> d] \o t : n \in Longs, d \in B, t \in {<<0, 1>>, <<1, 1>>}}
MaxLen(q) == CHOOSE m \in {Len(q[i]) : i \in 1..Len(q)} : \A i \in 1..Len(q) : Len(q[i]) <= m
Number == /\ acts = <<>>
          /\ \E s \in Seqs(MaxBits) \cup LongSeqs, d \in {0, 1, 2, 5} :
               LET z == Strip([i \in 1..Len(s) |-> s[i]])
                   m == IF d = 0 THEN 0 ELSE Len(s) + d - 2
               IN acts' = <<[op |-> "code", bits |-> s, min |-> m, ans |-> Pad(z, m)]>>
          /\ UNCHANGED <<w, tab, cnt>>
Short(n) == {s \in Seqs(n) : TRUE}
Many == /\ acts = <<>>
        /\ \E a \in Short(3), b \in Short(3), c \in {<<1>>, <<1, 0, 1, 1>>}, d \in {0, 4, 6} :
             LET q == <<Strip(a), Strip(b), c>>
                 m == IF MaxLen(q) > d THEN MaxLen(q) ELSE d
             IN acts' = <<[op |-> "codes", nums |-> q, min |-> d, ans |-> [i \in 1..3 |-> Pad(q[i], m)]]>>
        /\ UNCHANGED <<w, tab, cnt>>
Next == Start \/ Row \/ AskCounts \/ AskLik \/ Number \/ Many
Spec == Init /\ [][Next]_vars

(****************************** properties *********************************)
Counted == w > 0 => Total(cnt, Combos(w)) = Len(tab)
\* relative frequencies are a distribution over the combinations
RECURSIVE RSum(_)
RSum(S) == IF S = {} THEN RZero ELSE LET x == CHOOSE x \in S : TRUE IN RAdd(Rel(x, 1), RSum(S \ {x}))
Whole == w > 0 /\ w < 3 => RSum(Combos(w)) = ROne
\* the number that digits write
RECURSIVE Value(_, _)
Value(s, n) == IF n = 0 THEN 0 ELSE 2 * Value(s, n - 1) + s[n]
RoundTrip == \A i \in 1..Len(acts) : acts[i].op = "code" /\ Len(acts[i].ans) < 20 => Value(acts[i].ans, Len(acts[i].ans)) = Value(acts[i].bits, Len(acts[i].bits))
EmitEdge == PrintT("@@" \o ToJson([p |-> acts', r |-> <<>>]))
=============================================================================
