------------------------------ MODULE CondNorm -----------------------------
(***************************************************************************)
(* One variable of a multivariate normal given the others.  The covariance *)
(* matrices are all positive-definite ones of small integers; conditional  *)
(* means and variances are exact rationals, obtained by regression and     *)
(* checked against the precision matrix.  Values are asked for at levels   *)
(* evenly spaced between those of the limits, or at random, of one         *)
(* variable or, in a field, of each in turn given the ones already drawn.  *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, TLC, Json
CONSTANTS Ns, Hosts, Diags, Offs, Salts, Numbers, Redefs
VARIABLES cur, acts
vars == <<cur, acts>>

(****************************** the normal *********************************)
Det2(a, b, c, d) == a * d - b * c
Det3(m) == m[1][1] * Det2(m[2][2], m[2][3], m[3][2], m[3][3]) - m[1][2] * Det2(m[2][1], m[2][3], m[3][1], m[3][3])
           + m[1][3] * Det2(m[2][1], m[2][2], m[3][1], m[3][2])
PD(n, m) == /\ (n >= 1 => m[1][1] > 0) /\ (n >= 2 => Det2(m[1][1], m[1][2], m[2][1], m[2][2]) > 0) /\ (n >= 3 => Det3(m) > 0)
Pairs(n) == {p \in (1..n) \X (1..n) : p[1] < p[2]}
Covs(n) == {m \in {[i \in 1..n |-> [j \in 1..n |-> IF i = j THEN d[i] ELSE IF i < j THEN o[<<i, j>>] ELSE o[<<j, i>>]]]
                     : d \in [1..n -> Diags], o \in [Pairs(n) -> Offs]} : PD(n, m)}
Means(s) == <<<<0, 0, 0>>, <<1, -2, 3>>, <<-1, 2, 0>>>>[(s % 3) + 1]
Others(n, i) == LET RECURSIVE go(_)
                    go(k) == IF k > n THEN <<>> ELSE IF k = i THEN go(k + 1) ELSE <<k>> \o go(k + 1) IN go(1)
\* regression of i on the others
Coefs(n, m, i) ==
  LET o == Others(n, i) IN
  CASE n = 1 -> <<>>
    [] n = 2 -> <<Norm(m[i][o[1]], m[o[1]][o[1]])>>
    [] OTHER -> LET D == Det2(m[o[1]][o[1]], m[o[1]][o[2]], m[o[2]][o[1]], m[o[2]][o[2]])
                    a == m[i][o[1]]  b == m[i][o[2]] IN
                <<Norm(a * m[o[2]][o[2]] - b * m[o[2]][o[1]], D), Norm(b * m[o[1]][o[1]] - a * m[o[1]][o[2]], D)>>
Var(n, m, i) == LET o == Others(n, i)  c == Coefs(n, m, i) IN
                RSub(R(m[i][i]), RSumSeq([k \in 1..(n - 1) |-> RMul(c[k], R(m[o[k]][i]))]))
Mean(n, m, mu, i, x) == LET o == Others(n, i)  c == Coefs(n, m, i) IN
                        RAdd(R(mu[i]), RSumSeq([k \in 1..(n - 1) |-> RMul(c[k], R(x[o[k]] - mu[o[k]]))]))
\* the inverse of the covariance matrix
Cof(n, m, i, j) == CASE n = 1 -> 1
                     [] n = 2 -> (IF i = j THEN 1 ELSE -1) * m[3 - i][3 - j]
                     [] OTHER -> LET a == Others(3, i)  b == Others(3, j) IN
                                 (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * Det2(m[a[1]][b[1]], m[a[1]][b[2]], m[a[2]][b[1]], m[a[2]][b[2]])
Det(n, m) == CASE n = 1 -> m[1][1] [] n = 2 -> Det2(m[1][1], m[1][2], m[2][1], m[2][2]) [] OTHER -> Det3(m)
Prec(n, m, i, j) == Norm(Cof(n, m, i, j), Det(n, m))

(***************************** behaviours **********************************)
\* distances of the limits from the mean, 0 for none
LimSeq == << <<0, 0>>, <<-6, 6>>, <<-1, 2>>, <<-3, 1>>, <<-8, 3>> >>
Lims(n, s) == [i \in 1..n |-> LimSeq[((s + 2 * i) % Len(LimSeq)) + 1]]
\* conditions inside the limits, a little or much off the means
Offset(l, s) == LET o == <<0, 1, -1, 2>>[(s % 4) + 1] IN IF l = <<0, 0>> THEN 2 * o ELSE IF o < l[1] \/ o > l[2] THEN 0 ELSE o
Nothing == [n |-> 0, cov |-> <<>>, mu |-> <<>>, lims |-> <<>>, s |-> 0]
Init == cur = Nothing /\ acts = <<>>
Live == acts # <<>> /\ acts[Len(acts)].op = "define"
Define ==
  /\ (acts = <<>> \/ (Live /\ Len(acts) <= Redefs))
  /\ \E h \in Hosts, n \in (IF acts = <<>> THEN Ns ELSE {cur.n}), s \in Salts : \E m \in Covs(n) :
       /\ (acts # <<>> => acts[1].host = h /\ s = (cur.s + 1) % 3)
       /\ cur' = [n |-> n, cov |-> m, mu |-> SubSeq(Means(s), 1, n), s |-> s,
                  lims |-> IF acts = <<>> THEN [i \in 1..n |-> LET l == Lims(n, s + m[1][1] + m[n][n] + m[1][n])[i] IN IF l = <<0, 0>> THEN l ELSE <<l[1] + Means(s)[i], l[2] + Means(s)[i]>>] ELSE cur.lims]
       /\ acts' = Append(acts, [op |-> "define", host |-> h, c |-> cur'])
Ask ==
  /\ Live
  /\ \E i \in 1..cur.n, q \in 0..3, k \in Numbers :
       LET x == [j \in 1..cur.n |-> cur.mu[j] + Offset(IF cur.lims[j] = <<0, 0>> THEN <<0, 0>> ELSE <<cur.lims[j][1] - cur.mu[j], cur.lims[j][2] - cur.mu[j]>>, q + j)] IN
       /\ (cur.n = 1 => q = 0) /\ (cur.n > 1 /\ acts[1].host # "own" => i = 1 /\ k <= 0)
       /\ acts' = Append(acts, [op |-> "ask", i |-> i, x |-> x, k |-> k,
                                m |-> Mean(cur.n, cur.cov, cur.mu, i, x), v |-> Var(cur.n, cur.cov, i),
                                coefs |-> [j \in 1..cur.n |-> Coefs(cur.n, cur.cov, j)], vs |-> [j \in 1..cur.n |-> Var(cur.n, cur.cov, j)]])
  /\ UNCHANGED cur
\* the joint density at points of a grid: the quadratic form of each with the precision matrix, and the determinant
Grid(n, q) == LET a == <<<<-1>>, <<2, 0>>, <<1, -2, 3>>>>[(q % 3) + 1]  b == <<<<0, 3>>, <<-1>>, <<4, 1>>>>[((q + 1) % 3) + 1]  c == <<<<2>>, <<0, -1>>>>[(q % 2) + 1] IN SubSeq(<<a, b, c>>, 1, n)
Quad(n, m, mu, x) == RSumSeq([k \in 1..(n * n) |-> LET i == ((k - 1) \div n) + 1  j == ((k - 1) % n) + 1 IN
                                RMul(Prec(n, m, i, j), R((x[i] - mu[i]) * (x[j] - mu[j])))])
Density ==
  /\ Live /\ acts[1].host # "own"
  /\ \E q \in 0..5 :
       LET g == Grid(cur.n, q)
           N(i) == IF i > cur.n THEN 1 ELSE Len(g[i])
           x(k) == LET k0 == k - 1 IN SubSeq(<<g[1][(k0 \div (N(2) * N(3))) + 1], IF cur.n > 1 THEN g[2][((k0 \div N(3)) % N(2)) + 1] ELSE 0, IF cur.n > 2 THEN g[3][(k0 % N(3)) + 1] ELSE 0>>, 1, cur.n) IN
       acts' = Append(acts, [op |-> "density", g |-> g, q |-> q, det |-> Det(cur.n, cur.cov), r |-> [k \in 1..(N(1) * N(2) * N(3)) |-> Quad(cur.n, cur.cov, cur.mu, x(k))]])
  /\ UNCHANGED cur
Next == Define \/ Ask \/ Density
Spec == Init /\ [][Next]_vars

(****************************** properties *********************************)
\* the conditional variance is the inverse of the precision, the coefficients are those of the precision matrix
Precise == cur.n > 0 => \A i \in 1..cur.n :
              /\ RMul(Prec(cur.n, cur.cov, i, i), Var(cur.n, cur.cov, i)) = ROne
              /\ \A k \in 1..(cur.n - 1) : LET j == Others(cur.n, i)[k] IN
                   RMul(Coefs(cur.n, cur.cov, i)[k], Prec(cur.n, cur.cov, i, i)) = RNeg(Prec(cur.n, cur.cov, i, j))
\* conditioning never adds variance
Narrower == cur.n > 0 => \A i \in 1..cur.n : RLt(RZero, Var(cur.n, cur.cov, i)) /\ RLe(Var(cur.n, cur.cov, i), R(cur.cov[i][i]))
\* the quadratic form is positive away from the means
Positive == Live => \A q \in {1, 2} : LET x == [i \in 1..cur.n |-> cur.mu[i] + q] IN RLt(RZero, Quad(cur.n, cur.cov, cur.mu, x))
EmitEdge == PrintT("@@" \o ToJson([p |-> acts', r |-> <<>>]))
=============================================================================
