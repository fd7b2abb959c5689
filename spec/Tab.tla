-------------------------------- MODULE Tab --------------------------------
(***************************************************************************)
(* Probability tables: the mathematical meaning of a distribution object.  *)
(*                                                                         *)
(* A table p is a record                                                   *)
(*   ax : sequence of axes; an axis has keys ks (sequence) and rows vs     *)
(*        (sequence of tuples of values, one per key; a key may share its  *)
(*        axis with others)                                                *)
(*   sc : sequence of fixed variables [k, v, u]; u=1 marks an unspecified  *)
(*        set of v observations                                            *)
(*   mg, cd : marginal and conditioning keys, in order                     *)
(*   t  : row-major sequence of exact probabilities over the axes          *)
(*   ps : tag of the probability scale the numbers are stored on           *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, SequencesExt, TLC

Rng(s) == {s[i] : i \in 1..Len(s)}
Filter(s, S) == SelectSeq(s, LAMBDA x : x \in S)     \* keep members of S
Without(s, S) == SelectSeq(s, LAMBDA x : x \notin S)

RECURSIVE ProdInt(_)
ProdInt(s) == IF s = <<>> THEN 1 ELSE Head(s) * ProdInt(Tail(s))

Dims(p) == [i \in 1..Len(p.ax) |-> Len(p.ax[i].vs)]
AxKeys(a) == Rng(a.ks)
ScKeys(p) == {p.sc[i].k : i \in 1..Len(p.sc)}
AxAll(p) == UNION {AxKeys(p.ax[i]) : i \in 1..Len(p.ax)}
Keys(p) == AxAll(p) \cup ScKeys(p)
AxOf(p, k) == CHOOSE i \in 1..Len(p.ax) : k \in AxKeys(p.ax[i])
PosIn(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
ScOf(p, k) == p.sc[CHOOSE i \in 1..Len(p.sc) : p.sc[i].k = k]
KeyVals(p, k) == LET a == p.ax[AxOf(p, k)]  j == PosIn(a.ks, k)
                 IN [i \in 1..Len(a.vs) |-> a.vs[i][j]]

\* Row-major index arithmetic: d = dims, position 1..prod(d) <-> tuple
Stride(d, i) == ProdInt(SubSeq(d, i + 1, Len(d)))
Unrav(d, j) == [i \in 1..Len(d) |-> (((j - 1) \div Stride(d, i)) % d[i]) + 1]
RECURSIVE RavFrom(_, _, _)
RavFrom(d, x, i) == IF i > Len(d) THEN 0 ELSE (x[i] - 1) * Stride(d, i) + RavFrom(d, x, i + 1)
Rav(d, x) == 1 + RavFrom(d, x, 1)
AllIdx(d) == [j \in 1..ProdInt(d) |-> Unrav(d, j)]

\* Sum of t over the positions where all the axes in A agree with tuple x
SumAgree(p, d, idx, A, x) ==
  RSumSeq(LET js == SelectSeq([j \in 1..Len(idx) |-> j], LAMBDA j : \A i \in A : idx[j][i] = x[i])
          IN [m \in 1..Len(js) |-> p.t[js[m]]])

\* indices of axes all of whose keys lie in K
AxesIn(p, K) == {i \in 1..Len(p.ax) : AxKeys(p.ax[i]) \subseteq K}
\* no axis is split by K
NoSplit(p, K) == \A i \in 1..Len(p.ax) : AxKeys(p.ax[i]) \subseteq K \/ AxKeys(p.ax[i]) \cap K = {}

SeqOfSet(S, n) == SelectSeq([i \in 1..n |-> i], LAMBDA i : i \in S)

Total(p) == RSumSeq(p.t)

(******************************* operations *******************************)

MargOk(p, K) == /\ K \subseteq Rng(p.mg) /\ K \subseteq AxAll(p) /\ NoSplit(p, K)
                /\ Rng(p.mg) \ K # {}
Marginalise(p, K) ==
  LET gone == AxesIn(p, K)
      keep == SeqOfSet(1..Len(p.ax) \ gone, Len(p.ax))
      d == Dims(p)  idx == AllIdx(d)
      nax == [i \in 1..Len(keep) |-> p.ax[keep[i]]]
      nd == [i \in 1..Len(keep) |-> d[keep[i]]]
      KS == Rng(keep)
      Full(y) == [i \in 1..Len(p.ax) |-> IF i \in KS THEN y[PosIn(keep, i)] ELSE 1]
  IN [p EXCEPT !.ax = nax, !.mg = Without(p.mg, K),
       !.t = LET ni == AllIdx(nd) IN [j \in 1..Len(ni) |-> SumAgree(p, d, idx, KS, Full(ni[j]))]]

\* Conditioning on K: every remaining marginal must live on an axis
CondOk(p, K) == /\ K # {} /\ K \subseteq Rng(p.mg) /\ NoSplit(p, K)
                /\ Rng(p.mg) \ K # {}
                /\ (Rng(p.mg) \ K) \subseteq AxAll(p)
                /\ \A i \in 1..Len(p.ax) : AxKeys(p.ax[i]) \subseteq Rng(p.mg) \/ AxKeys(p.ax[i]) \subseteq Rng(p.cd)
                /\ ((K \cap ScKeys(p) # {}) => Total(p) # RZero)
KeyOrder(p) == p.mg \o p.cd
Conditionalise(p, K) ==
  LET given == AxesIn(p, K \cup Rng(p.cd))
      d == Dims(p)  idx == AllIdx(d)
  IN [p EXCEPT !.mg = Without(p.mg, K), !.cd = p.cd \o Filter(p.mg, K),
       !.t = [j \in 1..Len(p.t) |-> PDiv(p.t[j], SumAgree(p, d, idx, given, idx[j]))]]

\* Product of a sequence of tables
ScEq(p, q, k) == LET a == ScOf(p, k)  b == ScOf(q, k) IN a.v = b.v /\ a.u = b.u
AxEq(p, q, k) == LET a == p.ax[AxOf(p, k)]  b == q.ax[AxOf(q, k)] IN
   /\ AxKeys(a) = AxKeys(b) /\ Len(a.vs) = Len(b.vs)
   /\ \A kk \in AxKeys(a) : KeyVals(p, kk) = KeyVals(q, kk)
AgreeOn(p, q) == \A k \in Keys(p) \cap Keys(q) :
   IF k \in ScKeys(p) THEN k \in ScKeys(q) /\ ScEq(p, q, k) /\ ScOf(p, k).u = 0
   ELSE k \in AxAll(q) /\ AxEq(p, q, k)
ProdOk(ps) ==
  LET M == UNION {Rng(ps[i].mg) : i \in 1..Len(ps)}
      left(i) == Rng(ps[i].cd) \ M
      allleft == UNION {left(i) : i \in 1..Len(ps)}
  IN /\ \A i, j \in 1..Len(ps) : i # j => Rng(ps[i].mg) \cap Rng(ps[j].mg) = {} /\ AgreeOn(ps[i], ps[j])
     /\ \A i \in 1..Len(ps) : left(i) = {} \/ left(i) = allleft
     \* a shared axis may not be shared differently or absorb foreign keys
RECURSIVE CatSeqs(_)
CatSeqs(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o CatSeqs(Tail(ss))
RECURSIVE Dedup(_)
Dedup(s) == IF s = <<>> THEN <<>> ELSE
   LET r == Dedup(SubSeq(s, 1, Len(s) - 1)) IN IF s[Len(s)] \in Rng(r) THEN r ELSE Append(r, s[Len(s)])
RECURSIVE MergeAx(_, _)
MergeAx(acc, more) == IF more = <<>> THEN acc ELSE
   LET a == Head(more) IN
   MergeAx(IF \E i \in 1..Len(acc) : AxKeys(acc[i]) = AxKeys(a) THEN acc ELSE Append(acc, a), Tail(more))
RECURSIVE MergeSc(_, _)
MergeSc(acc, more) == IF more = <<>> THEN acc ELSE
   LET a == Head(more) IN
   MergeSc(IF \E i \in 1..Len(acc) : acc[i].k = a.k THEN acc ELSE Append(acc, a), Tail(more))
Product(ps, scale) ==
  LET n == Len(ps)
      mg == CatSeqs([i \in 1..n |-> ps[i].mg])
      cd == Dedup(Without(CatSeqs([i \in 1..n |-> ps[i].cd]), Rng(mg)))
      ax == MergeAx(<<>>, CatSeqs([i \in 1..n |-> ps[i].ax]))
      sc == MergeSc(<<>>, CatSeqs([i \in 1..n |-> ps[i].sc]))
      d == [i \in 1..Len(ax) |-> Len(ax[i].vs)]
      where(p) == [i \in 1..Len(p.ax) |-> CHOOSE j \in 1..Len(ax) : AxKeys(ax[j]) = AxKeys(p.ax[i])]
      wh == [i \in 1..n |-> where(ps[i])]
      dd == [i \in 1..n |-> Dims(ps[i])]
      idx == AllIdx(d)
      ent(i, x) == ps[i].t[Rav(dd[i], [m \in 1..Len(wh[i]) |-> x[wh[i][m]]])]
  IN [ax |-> ax, sc |-> sc, mg |-> mg, cd |-> cd, ps |-> scale,
      t |-> [j \in 1..Len(idx) |-> RProdSeq([i \in 1..n |-> ent(i, idx[j])])]]

\* Quotient p / q
DivOk(p, q) ==
  /\ Rng(p.cd) = Rng(q.cd) /\ Rng(q.mg) \subseteq Rng(p.mg) /\ Rng(q.mg) # Rng(p.mg)
  /\ AgreeOn(q, p)
  /\ (q.ax = <<>> => Rng(q.mg) = Rng(p.mg) \cap ScKeys(p))
  /\ \A j \in 1..Len(q.t) : q.t[j] # RZero
Quotient(p, q) ==
  LET d == Dims(p)  idx == AllIdx(d)  dq == Dims(q)
      wh == [i \in 1..Len(q.ax) |-> CHOOSE j \in 1..Len(p.ax) : AxKeys(p.ax[j]) = AxKeys(q.ax[i])]
  IN [p EXCEPT !.mg = Without(p.mg, Rng(q.mg)), !.cd = p.cd \o Filter(p.mg, Rng(q.mg)),
       !.t = [j \in 1..Len(p.t) |-> PDiv(p.t[j], q.t[Rav(dq, [m \in 1..Len(wh) |-> idx[j][wh[m]]])])]]

\* Fix variables (function req: key -> value); keep = keep axes with one match
AxMatch(p, i, req) == SelectSeq([r \in 1..Len(p.ax[i].vs) |-> r],
    LAMBDA r : \A m \in 1..Len(p.ax[i].ks) : p.ax[i].ks[m] \in DOMAIN req => p.ax[i].vs[r][m] = req[p.ax[i].ks[m]])
SliceOk(p, req) == DOMAIN req # {} /\ DOMAIN req \subseteq AxAll(p)
Slice(p, req, keep) ==
  LET n == Len(p.ax)
      hit == {i \in 1..n : AxKeys(p.ax[i]) \cap DOMAIN req # {}}
      rows == [i \in 1..n |-> IF i \in hit THEN AxMatch(p, i, req) ELSE [r \in 1..Len(p.ax[i].vs) |-> r]]
      drop == {i \in hit : Len(rows[i]) = 1 /\ ~keep}
      kept == SeqOfSet(1..n \ drop, n)
      d == Dims(p)
      nd == [i \in 1..Len(kept) |-> Len(rows[kept[i]])]
      nax == [i \in 1..Len(kept) |-> [ks |-> p.ax[kept[i]].ks,
                vs |-> [r \in 1..nd[i] |-> p.ax[kept[i]].vs[rows[kept[i]][r]]]]]
      dropped == SeqOfSet(drop, n)
      nsc == CatSeqs([i \in 1..Len(dropped) |->
               [m \in 1..Len(p.ax[dropped[i]].ks) |->
                  [k |-> p.ax[dropped[i]].ks[m], v |-> p.ax[dropped[i]].vs[rows[dropped[i]][1]][m], u |-> 0]]])
      KS == Rng(kept)
      old(y) == [i \in 1..n |-> IF i \in KS THEN rows[i][y[PosIn(kept, i)]] ELSE rows[i][1]]
      ni == AllIdx(nd)
  IN [p EXCEPT !.ax = nax, !.sc = p.sc \o nsc,
       !.t = [j \in 1..Len(ni) |-> p.t[Rav(d, old(ni[j]))]]]
IsEmpty(p) == \E i \in 1..Len(p.ax) : p.ax[i].vs = <<>>

\* Rename keys by an injective function m with domain in Keys(p)
Ren(m, k) == IF k \in DOMAIN m THEN m[k] ELSE k
RenSeq(m, s) == [i \in 1..Len(s) |-> Ren(m, s[i])]
Rename(p, m) == [p EXCEPT !.ax = [i \in 1..Len(p.ax) |-> [ks |-> RenSeq(m, p.ax[i].ks), vs |-> p.ax[i].vs]],
   !.sc = [i \in 1..Len(p.sc) |-> [p.sc[i] EXCEPT !.k = Ren(m, @)]],
   !.mg = RenSeq(m, p.mg), !.cd = RenSeq(m, p.cd)]

\* Permute axes: new axis i is old axis f[i]
Permute(p, f) ==
  LET d == Dims(p)  n == Len(p.ax)
      nd == [i \in 1..n |-> d[f[i]]]  ni == AllIdx(nd)
      inv == [i \in 1..n |-> CHOOSE j \in 1..n : f[j] = i]
  IN [p EXCEPT !.ax = [i \in 1..n |-> p.ax[f[i]]],
       !.t = [j \in 1..Len(ni) |-> p.t[Rav(d, [i \in 1..n |-> ni[j][inv[i]]])]]]

\* Reorder the rows of axis a by sequence of row numbers rs
TakeRows(p, a, rs) ==
  LET d == Dims(p)  nd == [d EXCEPT ![a] = Len(rs)]  ni == AllIdx(nd)
  IN [p EXCEPT !.ax = [p.ax EXCEPT ![a].vs = [r \in 1..Len(rs) |-> p.ax[a].vs[rs[r]]]],
       !.t = [j \in 1..Len(ni) |-> p.t[Rav(d, [ni[j] EXCEPT ![a] = rs[ni[j][a]]])]]]
SortedRows(vals) == SortSeq([i \in 1..Len(vals) |-> i], LAMBDA i, j : vals[i] < vals[j] \/ (vals[i] = vals[j] /\ i < j))
SortBy(p, k) == IF k \in ScKeys(p) THEN p ELSE TakeRows(p, AxOf(p, k), SortedRows(KeyVals(p, k)))

\* IID collapse of keys K
CollapseOk(p, K) == K # {} /\ K \subseteq Rng(p.mg) /\ K \subseteq AxAll(p) /\ NoSplit(p, K)
Collapse(p, K, scale) ==
  LET gone == AxesIn(p, K)  n == Len(p.ax)
      keep == SeqOfSet(1..n \ gone, n)  KS == Rng(keep)
      d == Dims(p)  idx == AllIdx(d)
      nd == [i \in 1..Len(keep) |-> d[keep[i]]]  ni == AllIdx(nd)
      full(y) == [i \in 1..n |-> IF i \in KS THEN y[PosIn(keep, i)] ELSE 1]
      ks == Filter(p.mg, K)
      js(x) == SelectSeq([j \in 1..Len(idx) |-> j], LAMBDA j : \A i \in KS : idx[j][i] = x[i])
  IN [p EXCEPT !.ax = [i \in 1..Len(keep) |-> p.ax[keep[i]]], !.ps = scale,
       !.sc = p.sc \o [i \in 1..Len(ks) |-> [k |-> ks[i], v |-> d[AxOf(p, ks[i])], u |-> 1]],
       !.t = [j \in 1..Len(ni) |-> LET z == js(full(ni[j])) IN RProdSeq([m \in 1..Len(z) |-> p.t[z[m]]])]]

\* Concatenate along axis a (other axes identical)
Concat(p, q, a) ==
  LET d == Dims(p)  dq == Dims(q)  nd == [d EXCEPT ![a] = d[a] + dq[a]]  ni == AllIdx(nd)
  IN [p EXCEPT !.ax = [p.ax EXCEPT ![a].vs = p.ax[a].vs \o q.ax[a].vs],
       !.t = [j \in 1..Len(ni) |-> IF ni[j][a] <= d[a] THEN p.t[Rav(d, ni[j])]
                                   ELSE q.t[Rav(dq, [ni[j] EXCEPT ![a] = @ - d[a]])]]]

\* Pooling a sequence of tables: single assignments become the rows of one shared axis; tables with axes are
\* concatenated along the one axis on which they differ
Singles(ps) == \A i \in 1..Len(ps) : ps[i].ax = <<>>
DiffAxes(ps) == {a \in 1..Len(ps[1].ax) : \E i \in 2..Len(ps) : ps[i].ax[a].vs # ps[1].ax[a].vs}
PoolAxis(ps) == IF DiffAxes(ps) = {} THEN {1} ELSE DiffAxes(ps)
PoolOk(ps) ==
  /\ \A i \in 2..Len(ps) : ps[i].mg = ps[1].mg /\ ps[i].cd = ps[1].cd /\ ps[i].ps = ps[1].ps
  /\ \A i \in 2..Len(ps) : ScKeys(ps[i]) = ScKeys(ps[1])
  /\ IF Singles(ps)
     THEN /\ \A i \in 2..Len(ps), k \in ScKeys(ps[1]) : ScOf(ps[i], k).u = ScOf(ps[1], k).u
          /\ \E k \in ScKeys(ps[1]) : ScOf(ps[1], k).u = 0
     ELSE /\ \A i \in 2..Len(ps) : /\ Len(ps[i].ax) = Len(ps[1].ax)
                                     /\ \A a \in 1..Len(ps[1].ax) : ps[i].ax[a].ks = ps[1].ax[a].ks
                                     /\ \A k \in ScKeys(ps[1]) : ScOf(ps[i], k) = ScOf(ps[1], k)
          /\ ps[1].ax # <<>>
          /\ Cardinality(DiffAxes(ps)) = 1 \/ (DiffAxes(ps) = {} /\ Len(ps[1].ax) = 1)
Pool(ps) ==
  IF Singles(ps)
  THEN LET p == ps[1]
           ks == SelectSeq(p.mg \o p.cd, LAMBDA k : ScOf(p, k).u = 0)
           us == SelectSeq(p.mg \o p.cd, LAMBDA k : ScOf(p, k).u = 1)
       IN [p EXCEPT !.ax = <<[ks |-> ks, vs |-> [i \in 1..Len(ps) |-> [m \in 1..Len(ks) |-> ScOf(ps[i], ks[m]).v]]]>>,
            !.sc = [m \in 1..Len(us) |-> [k |-> us[m], u |-> 1,
                      v |-> FoldSeq(LAMBDA q, acc : acc + ScOf(q, us[m]).v, 0, ps)]],
            !.t = [i \in 1..Len(ps) |-> ps[i].t[1]]]
  ELSE LET a == CHOOSE x \in PoolAxis(ps) : TRUE IN FoldLeft(LAMBDA acc, q : Concat(acc, q, a), ps[1], Tail(ps))

\* Re-binning: every cell goes to bin (i_1, .., i_g) of a grid; cv(x, b) is the value of cell x for grid axis b
Bin(edges, v) == LET below == {i \in 1..Len(edges) : edges[i] <= v}
                 IN IF below = {} THEN 1 ELSE CHOOSE i \in below : \A j \in below : j <= i
Rebin(p, gks, gedges, gsc, cv(_, _)) ==
  LET d == Dims(p)  idx == AllIdx(d)
      cax == SelectSeq([i \in 1..Len(p.ax) |-> i], LAMBDA i : AxKeys(p.ax[i]) \subseteq Rng(p.cd))
      g == Len(gks)
      nax == [b \in 1..g |-> [ks |-> <<gks[b]>>, vs |-> [e \in 1..Len(gedges[b]) |-> <<gedges[b][e]>>]]]
             \o [c \in 1..Len(cax) |-> p.ax[cax[c]]]
      nd == [a \in 1..Len(nax) |-> Len(nax[a].vs)]
      ni == AllIdx(nd)
      dest == [j \in 1..Len(idx) |-> Rav(nd, [a \in 1..Len(nax) |->
                 IF a <= g THEN Bin(gedges[a], cv(idx[j], a)) ELSE idx[j][cax[a - g]]])]
      csc == SelectSeq(p.sc, LAMBDA s : s.k \in Rng(p.cd))
  IN [p EXCEPT !.ax = nax, !.sc = gsc \o csc,
       !.mg = gks \o [i \in 1..Len(gsc) |-> gsc[i].k],
       !.t = [m \in 1..Len(ni) |-> LET js == SelectSeq([j \in 1..Len(idx) |-> j], LAMBDA j : dest[j] = m)
                                    IN RSumSeq([q \in 1..Len(js) |-> p.t[js[q]]])]]

\* Expectation of x^e for key k over variables K, one entry per remaining index
ExpAxes(p, K) == {i \in 1..Len(p.ax) : AxKeys(p.ax[i]) \cap K # {}}
RECURSIVE IPow(_, _)
IPow(b, e) == IF e = 0 THEN 1 ELSE b * IPow(b, e - 1)
Expect(p, K, k, e) ==
  LET S == ExpAxes(p, K)  n == Len(p.ax)
      keep == SeqOfSet(1..n \ S, n)  KS == Rng(keep)
      d == Dims(p)  idx == AllIdx(d)
      nd == [i \in 1..Len(keep) |-> d[keep[i]]]  ni == AllIdx(nd)
      full(y) == [i \in 1..n |-> IF i \in KS THEN y[PosIn(keep, i)] ELSE 1]
      js(x) == SelectSeq([j \in 1..Len(idx) |-> j], LAMBDA j : \A i \in KS : idx[j][i] = x[i])
      vals == KeyVals(p, k)  a == AxOf(p, k)
  IN [j \in 1..Len(ni) |->
        LET z == js(full(ni[j]))
            num == RSumSeq([m \in 1..Len(z) |-> RMul(p.t[z[m]], R(IPow(vals[idx[z[m]][a]], e)))])
            den == RSumSeq([m \in 1..Len(z) |-> p.t[z[m]]])
        IN PDiv(num, den)]

(****************************** well-formedness ***************************)
WellFormed(p) ==
  /\ Len(p.t) = ProdInt(Dims(p))
  /\ Rng(p.mg) \cup Rng(p.cd) = Keys(p)
  /\ Rng(p.mg) \cap Rng(p.cd) = {}
  /\ Len(p.mg) + Len(p.cd) = Cardinality(Keys(p))
  /\ AxAll(p) \cap ScKeys(p) = {}
  /\ \A i \in 1..Len(p.t) : p.t[i][1] >= 0 /\ p.t[i][2] > 0
\* the set of (assignment, probability) pairs, the meaning of a table (rows numbered to keep repeats)
Asg(p, x) == [k \in Keys(p) |-> IF k \in ScKeys(p) THEN ScOf(p, k).v ELSE
                  LET i == AxOf(p, k) IN p.ax[i].vs[x[i]][PosIn(p.ax[i].ks, k)]]
Meaning(p) == LET idx == AllIdx(Dims(p)) IN {<<Asg(p, idx[j]), p.t[j]>> : j \in 1..Len(p.t)}
\* rows of the conditioning axes are told apart by position, so repeated values count separately
CondRow(p, x) == {<<p.ax[i].ks, x[i]>> : i \in {m \in 1..Len(p.ax) : AxKeys(p.ax[m]) \subseteq Rng(p.cd)}}
MassPerCond(p) ==   \* function: combination of conditioning rows -> mass
  LET idx == AllIdx(Dims(p))
      C == {CondRow(p, idx[j]) : j \in 1..Len(p.t)}
  IN [c \in C |-> RSumSeq(LET js == SelectSeq([j \in 1..Len(p.t) |-> j], LAMBDA j : CondRow(p, idx[j]) = c)
                          IN [m \in 1..Len(js) |-> p.t[js[m]]])]
=============================================================================
