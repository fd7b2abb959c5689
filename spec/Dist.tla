-------------------------------- MODULE Dist --------------------------------
(***************************************************************************)
(* The distribution algebra of probayes as a state machine.                *)
(*                                                                         *)
(* State: the registers created so far (regs, each a probability table of  *)
(* module Tab) and the actions that created them (acts).  A register, once *)
(* written, never changes: operations are functions.  Every behaviour is   *)
(* one program over distributions; TLC enumerates all programs up to Depth *)
(* over the scenarios in Scens and emits them (EmitEdge) for replay into   *)
(* the implementation; the algebraic laws below are checked on every step. *)
(***************************************************************************)
EXTENDS Tab, Json

CONSTANTS Scens,    \* scenario numbers to load
          Salts,    \* weight variants
          Scales,   \* scale variants, subset of 0..5
          Depth,    \* maximal number of actions after load
          Pre,      \* operations allowed before the last action
          Focus     \* operations under examination

VARIABLES regs, acts
vars == <<regs, acts>>

(****************************** scenarios *********************************)
KV(k) == CASE k = "x" -> <<1, 4>>      [] k = "y" -> <<7, 2, 5>>  [] k = "z" -> <<3, 0>>
           [] k = "w" -> <<6, 8>>      [] k = "u" -> <<9>>        [] k = "v" -> <<2, 5, 2, 5>>
           [] k = "q" -> <<-1, 10, 3>> [] k = "r" -> <<1, 1, 0, 3>> [] k = "s" -> <<5, 2>>
           [] OTHER -> <<0>>
SV(k) == CASE k = "a" -> 3 [] k = "b" -> 5 [] k = "c" -> 0 [] k = "e" -> 4 [] OTHER -> 1
W(salt, n, j) == IF salt % 2 = 0 THEN 1 + ((salt * 31 + n * 17 + j * j * 7 + j * (salt + 3)) % 4)
                 ELSE (salt * 29 + n * 13 + j * j * 5 + j * (salt + 2)) % 4
A(ks) == [ks |-> ks, vs |-> [r \in 1..Len(KV(ks[1])) |-> [m \in 1..Len(ks) |-> KV(ks[m])[r]]]]
Sc(k) == [k |-> k, v |-> SV(k), u |-> 0]
ScV(k, v) == [k |-> k, v |-> v, u |-> 0]
AV(ks, vs) == [ks |-> ks, vs |-> vs]
Un(k) == [k |-> k, v |-> SV(k), u |-> 1]
T(mg, cd, axs, scs) == [mg |-> mg, cd |-> cd, axs |-> axs, scs |-> scs]

Templates == <<
 (* 1*) << T(<<"x">>, <<>>, <<A(<<"x">>)>>, <<>>) >>,
 (* 2*) << T(<<"x","y">>, <<>>, <<A(<<"x">>), A(<<"y">>)>>, <<>>) >>,
 (* 3*) << T(<<"x","y">>, <<>>, <<A(<<"y">>), A(<<"x">>)>>, <<>>) >>,
 (* 4*) << T(<<"x","y","z">>, <<>>, <<A(<<"z">>), A(<<"x">>), A(<<"y">>)>>, <<>>) >>,
 (* 5*) << T(<<"x","y">>, <<"z">>, <<A(<<"z">>), A(<<"x">>), A(<<"y">>)>>, <<>>) >>,
 (* 6*) << T(<<"y","w","q">>, <<>>, <<A(<<"y","q">>), A(<<"w">>)>>, <<>>) >>,
 (* 7*) << T(<<"a","x","y">>, <<>>, <<A(<<"x">>), A(<<"y">>)>>, <<Sc("a")>>) >>,
 (* 8*) << T(<<"x","y">>, <<"b","z">>, <<A(<<"x">>), A(<<"y">>), A(<<"z">>)>>, <<Sc("b")>>) >>,
 (* 9*) << T(<<"x">>, <<>>, <<A(<<"x">>)>>, <<>>),
           T(<<"y">>, <<"x">>, <<A(<<"y">>), A(<<"x">>)>>, <<>>),
           T(<<"z">>, <<"x","y">>, <<A(<<"y">>), A(<<"z">>), A(<<"x">>)>>, <<>>) >>,
 (*10*) << T(<<"x">>, <<"z">>, <<A(<<"z">>), A(<<"x">>)>>, <<>>),
           T(<<"y">>, <<"z">>, <<A(<<"y">>), A(<<"z">>)>>, <<>>),
           T(<<"z">>, <<>>, <<A(<<"z">>)>>, <<>>) >>,
 (*11*) << T(<<"a">>, <<>>, <<>>, <<Sc("a")>>),
           T(<<"y">>, <<"a">>, <<A(<<"y">>)>>, <<Sc("a")>>),
           T(<<"w">>, <<"y">>, <<A(<<"y">>), A(<<"w">>)>>, <<>>) >>,
 (*12*) << T(<<"y","q">>, <<>>, <<A(<<"y","q">>)>>, <<>>),
           T(<<"w">>, <<"y","q">>, <<A(<<"w">>), A(<<"y","q">>)>>, <<>>),
           T(<<"z">>, <<>>, <<A(<<"z">>)>>, <<>>) >>,
 (*13*) << T(<<"e","y","x">>, <<>>, <<A(<<"y">>), A(<<"x">>)>>, <<Un("e")>>) >>,
 (*14*) << T(<<"w","x","y","z">>, <<>>, <<A(<<"w">>), A(<<"x">>), A(<<"y">>), A(<<"z">>)>>, <<>>) >>,
 (*15*) << T(<<"x","y","z">>, <<"w">>, <<A(<<"x">>), A(<<"y">>), A(<<"z">>), A(<<"w">>)>>, <<>>) >>,
 (*16*) << T(<<"v","x">>, <<>>, <<A(<<"x">>), A(<<"v">>)>>, <<>>) >>,
 (*17*) << T(<<"a">>, <<"b">>, <<>>, <<Sc("a"), Sc("b")>>), T(<<"b">>, <<>>, <<>>, <<Sc("b")>>),
           T(<<"c">>, <<"b">>, <<>>, <<Sc("c"), Sc("b")>>) >>,
 (*18*) << T(<<"u","x">>, <<>>, <<A(<<"u">>), A(<<"x">>)>>, <<>>), T(<<"y">>, <<"u">>, <<A(<<"y">>), A(<<"u">>)>>, <<>>) >>,
 (*19*) << T(<<"x">>, <<>>, <<A(<<"x">>)>>, <<>>), T(<<"y">>, <<>>, <<A(<<"y">>)>>, <<>>), T(<<"z">>, <<>>, <<A(<<"z">>)>>, <<>>) >>,
 (*20*) << T(<<"x","y">>, <<>>, <<A(<<"y">>), A(<<"x">>)>>, <<>>),
           T(<<"z">>, <<"y","x">>, <<A(<<"x">>), A(<<"y">>), A(<<"z">>)>>, <<>>),
           T(<<"w">>, <<"z">>, <<A(<<"w">>), A(<<"z">>)>>, <<>>) >>,
 (*21*) << T(<<"x">>, <<"a">>, <<A(<<"x">>)>>, <<Sc("a")>>), T(<<"a">>, <<>>, <<>>, <<Sc("a")>>),
           T(<<"z">>, <<"x","a">>, <<A(<<"z">>), A(<<"x">>)>>, <<Sc("a")>>) >>,
 (*22*) << T(<<"v","r">>, <<>>, <<A(<<"v","r">>)>>, <<>>) >>,
 (*23*) << T(<<"a","x">>, <<>>, <<A(<<"x">>)>>, <<Sc("a")>>), T(<<"a">>, <<>>, <<>>, <<Sc("a")>>) >>,
 (*24*) << T(<<"x","y">>, <<"z">>, <<A(<<"y">>), A(<<"z">>), A(<<"x">>)>>, <<>>),
           T(<<"y">>, <<"z">>, <<A(<<"z">>), A(<<"y">>)>>, <<>>),
           T(<<"x">>, <<"z">>, <<A(<<"x">>), A(<<"z">>)>>, <<>>) >>,
 (*25*) << T(<<"x","y","w">>, <<>>, <<A(<<"x">>), A(<<"y">>), A(<<"w">>)>>, <<>>),
           T(<<"w","x">>, <<>>, <<A(<<"w">>), A(<<"x">>)>>, <<>>),
           T(<<"y","x">>, <<>>, <<A(<<"y">>), A(<<"x">>)>>, <<>>) >>,
 (*26*) << T(<<"a","y","b">>, <<"c">>, <<A(<<"y">>)>>, <<Sc("a"), Sc("b"), Sc("c")>>),
           T(<<"b","a">>, <<"c">>, <<>>, <<Sc("a"), Sc("b"), Sc("c")>>) >>,
 (*27*) << T(<<"v","r","x">>, <<"y">>, <<A(<<"v","r">>), A(<<"y">>), A(<<"x">>)>>, <<>>) >>,
 (*28*) << T(<<"x","s">>, <<"z">>, <<A(<<"x","s">>), A(<<"z">>)>>, <<>>),
           T(<<"z">>, <<>>, <<A(<<"z">>)>>, <<>>), T(<<"y">>, <<"x","s">>, <<A(<<"y">>), A(<<"x","s">>)>>, <<>>) >>,
 (* 29 to 36: distributions to pool *)
 (*29*) << T(<<"a","b">>, <<"c">>, <<>>, <<ScV("a", 3), ScV("b", 5), ScV("c", 0)>>),
           T(<<"a","b">>, <<"c">>, <<>>, <<ScV("a", 1), ScV("b", 5), ScV("c", 0)>>),
           T(<<"a","b">>, <<"c">>, <<>>, <<ScV("a", 3), ScV("b", 2), ScV("c", 4)>>) >>,
 (*30*) << T(<<"e","a">>, <<>>, <<>>, <<Un("e"), ScV("a", 3)>>),
           T(<<"e","a">>, <<>>, <<>>, <<[Un("e") EXCEPT !.v = 2], ScV("a", 1)>>),
           T(<<"e","a">>, <<>>, <<>>, <<[Un("e") EXCEPT !.v = 7], ScV("a", 3)>>) >>,
 (*31*) << T(<<"x","y">>, <<"z">>, <<A(<<"z">>), A(<<"x">>), A(<<"y">>)>>, <<>>),
           T(<<"x","y">>, <<"z">>, <<A(<<"z">>), A(<<"x">>), AV(<<"y">>, <<<<9>>, <<4>>>>)>>, <<>>),
           T(<<"x","y">>, <<"z">>, <<A(<<"z">>), A(<<"x">>), AV(<<"y">>, <<<<0>>>>)>>, <<>>) >>,
 (*32*) << T(<<"w","y","q">>, <<>>, <<A(<<"w">>), A(<<"y","q">>)>>, <<>>),
           T(<<"w","y","q">>, <<>>, <<A(<<"w">>), AV(<<"y","q">>, <<<<7, 0>>, <<2, 10>>>>)>>, <<>>),
           T(<<"w","y","q">>, <<>>, <<AV(<<"w">>, <<<<0>>>>), A(<<"y","q">>)>>, <<>>) >>,
 (*33*) << T(<<"x">>, <<>>, <<A(<<"x">>)>>, <<>>), T(<<"x">>, <<>>, <<A(<<"x">>)>>, <<>>),
           T(<<"x">>, <<>>, <<AV(<<"x">>, <<<<2>>>>)>>, <<>>) >>,
 (*34*) << T(<<"a","x">>, <<"b">>, <<A(<<"x">>)>>, <<Sc("a"), Sc("b")>>),
           T(<<"a","x">>, <<"b">>, <<AV(<<"x">>, <<<<5>>, <<6>>, <<1>>>>)>>, <<Sc("a"), Sc("b")>>),
           T(<<"a","x">>, <<"b">>, <<AV(<<"x">>, <<<<5>>>>)>>, <<ScV("a", 9), Sc("b")>>) >>,
 (*35*) << T(<<"a">>, <<"b","c">>, <<>>, <<ScV("a", 3), ScV("b", 5), ScV("c", 0)>>),
           T(<<"a">>, <<"b","c">>, <<>>, <<ScV("a", 1), ScV("b", 5), ScV("c", 0)>>),
           T(<<"a">>, <<"b","c">>, <<>>, <<ScV("a", 3), ScV("b", 2), ScV("c", 4)>>) >>,
 (*36*) << T(<<"x">>, <<"y","z">>, <<A(<<"y">>), A(<<"z">>), A(<<"x">>)>>, <<>>),
           T(<<"x">>, <<"y","z">>, <<A(<<"y">>), AV(<<"z">>, <<<<8>>, <<3>>>>), A(<<"x">>)>>, <<>>),
           T(<<"x">>, <<"y","z">>, <<A(<<"y">>), AV(<<"z">>, <<<<0>>>>), A(<<"x">>)>>, <<>>) >>,
 (* 37, 38: axes of equal lengths *)
 (*37*) << T(<<"x","y","w">>, <<>>, <<A(<<"x">>), A(<<"y">>), A(<<"w">>)>>, <<>>),
           T(<<"w","x">>, <<>>, <<A(<<"x">>), A(<<"w">>)>>, <<>>) >>,
 (*38*) << T(<<"x","y","z","w">>, <<>>, <<A(<<"x">>), A(<<"z">>), A(<<"w">>), A(<<"y">>)>>, <<>>),
           T(<<"x","w","z">>, <<>>, <<A(<<"z">>), A(<<"w">>), A(<<"x">>)>>, <<>>) >>,
 (* 39: values that are close to each other and to those asked for *)
 (*39*) << T(<<"x","y">>, <<"z">>, <<A(<<"z">>), AV(<<"x">>, <<<<300000>>, <<300001>>, <<299999>>, <<300001>>>>), AV(<<"y">>, <<<<100>>, <<-100>>>>)>>, <<>>) >>
>>

\* scale variant of register number n: [lg, c] = logarithmic?, coefficient e^c
SclOf(v, n) == CASE v = 0 -> [lg |-> 0, c |-> 0] [] v = 1 -> [lg |-> 1, c |-> 0]
                 [] v = 2 -> [lg |-> 0, c |-> n] [] v = 3 -> [lg |-> 1, c |-> 1 - 2 * (n % 2)]
                 [] v = 4 -> IF n % 2 = 1 THEN [lg |-> 0, c |-> 0] ELSE [lg |-> 1, c |-> 0]
                 [] v = 5 -> IF n % 2 = 1 THEN [lg |-> 1, c |-> 2] ELSE [lg |-> 0, c |-> 1]
                 [] v \in {7, 8} -> [lg |-> 1, c |-> 0]
                 [] OTHER -> IF n = 1 THEN [lg |-> 1, c |-> -1] ELSE IF n = 2 THEN [lg |-> 0, c |-> -2] ELSE [lg |-> 1, c |-> 0]
\* numbers far below (or above) what is representable off the logarithmic scale: an entry denotes t times Far ^ dg for a
\* huge Far; every operation is homogeneous in its operands, of the degree given with its action
FarOf(v) == IF v = 7 THEN -1 ELSE IF v = 8 THEN 1 ELSE 0
Inst(tm, salt, n, v) ==
  LET d == [i \in 1..Len(tm.axs) |-> Len(tm.axs[i].vs)]
      N == ProdInt(d)
  IN [ax |-> tm.axs, sc |-> tm.scs, mg |-> tm.mg, cd |-> tm.cd, ps |-> SclOf(v, n), dg |-> FarOf(v),
      t |-> [j \in 1..N |-> Norm(W(salt, n, j), 8)]]
Load(s, salt, v) == [n \in 1..Len(Templates[s]) |-> Inst(Templates[s][n], salt, n, v)]

(**************************** magnitude guard *****************************)
\* TLC integers have 32 bits: stop a program whose exact numbers get too big
RECURSIVE LcmSeq(_, _)
LcmSeq(s, acc) == IF s = <<>> \/ acc > 5040 THEN acc
                  ELSE LET d == Head(s)[2] IN LcmSeq(Tail(s), IF d > 5040 THEN 10000 ELSE (acc \div GCD(acc, d)) * d)
Big(p) == LcmSeq(p.t, 1) > 5040 \/ \E i \in 1..Len(p.t) : p.t[i][1] > 20000
L(p) == LcmSeq(p.t, 1)

(******************************** actions *********************************)
n == Len(regs)
fresh == Len(acts) = 1          \* only loaded registers so far
Unary == {a \in 1..n : (fresh \/ a = n) /\ ~Big(regs[a]) /\ ~IsEmpty(regs[a])}
Okay(a) == ~Big(regs[a]) /\ ~IsEmpty(regs[a])
On(op) == /\ Len(acts) >= 1 /\ Len(acts) <= Depth
          /\ acts[Len(acts)].st = 1
          /\ (op \in Focus \/ (op \in Pre /\ Len(acts) < Depth))
\* st = 1: wrote a register; 0: observation or refusal, ends the program
Step(act, res) == /\ regs' = Append(regs, res) /\ acts' = Append(acts, act @@ [st |-> 1])
Look(act) == /\ regs' = regs /\ acts' = Append(acts, act @@ [st |-> 0])
SeqSet(S) == SetToSeq(S)

DoLoad == /\ acts = <<>>
          /\ \E s \in Scens, salt \in Salts, v \in Scales :
                       /\ regs' = Load(s, salt, v)
                       /\ acts' = <<[op |-> "load", sc |-> s, salt |-> salt, v |-> v, st |-> 1]>>
DoMarg == /\ On("marg")
          /\ \E a \in Unary : \E K \in SUBSET Rng(regs[a].mg) :
                     /\ K # {} /\ MargOk(regs[a], K)
                     /\ Step([op |-> "marg", a |-> a, k |-> SeqSet(K)], Marginalise(regs[a], K))
\* the marginal of K: everything else that lives on an axis is summed out
MarginalOk(p, K) == /\ K # {} /\ K \subseteq Rng(p.mg) /\ NoSplit(p, K)
                    /\ Rng(p.mg) \cap ScKeys(p) \subseteq K
                    /\ MargOk(p, Rng(p.mg) \ K)
DoMarginal == /\ On("marginal")
              /\ \E a \in Unary : \E K \in SUBSET Rng(regs[a].mg) :
                     /\ MarginalOk(regs[a], K)
                     /\ Step([op |-> "marginal", a |-> a, k |-> SeqSet(K)], Marginalise(regs[a], Rng(regs[a].mg) \ K))
DoCond == /\ On("cond")
          /\ \E a \in Unary : \E K \in SUBSET Rng(regs[a].mg) :
                     /\ CondOk(regs[a], K)
                     /\ Step([op |-> "cond", a |-> a, k |-> SeqSet(K)], [Conditionalise(regs[a], K) EXCEPT !.dg = 0])
ScaleProd(ps) == [lg |-> IF \E i \in 1..Len(ps) : ps[i].ps.lg = 1 THEN 1 ELSE 0,
                  c |-> FoldSeq(LAMBDA p, acc : acc + p.ps.c, 0, ps)]
\* a name written with explicit values ("x=[]") and one without denote the same variable
DoProd2 == /\ On("prod")
           /\ \E a, b \in 1..n :
                     /\ a # b /\ (fresh \/ a = n \/ b = n) /\ Okay(a) /\ Okay(b)
                     /\ L(regs[a]) * L(regs[b]) <= 40000
                     /\ LET ps == <<regs[a], regs[b]>> IN ProdOk(ps) /\ Step([op |-> "prod", as |-> <<a, b>>], Product(ps, ScaleProd(ps)) @@ [dg |-> regs[a].dg + regs[b].dg])
DoProd3 == /\ On("prod3")
           /\ \E a, b, c \in 1..n :
                     /\ Cardinality({a, b, c}) = 3 /\ (fresh \/ n \in {a, b, c}) /\ Okay(a) /\ Okay(b) /\ Okay(c)
                     /\ L(regs[a]) * L(regs[b]) <= 10000 /\ L(regs[c]) <= 16
                     /\ LET ps == <<regs[a], regs[b], regs[c]>> IN ProdOk(ps) /\ Step([op |-> "prod", as |-> <<a, b, c>>], Product(ps, ScaleProd(ps)) @@ [dg |-> regs[a].dg + regs[b].dg + regs[c].dg])
DoDiv == /\ On("div")
         /\ \E a, b \in 1..n :
                     /\ a # b /\ (fresh \/ a = n \/ b = n) /\ Okay(a) /\ Okay(b)
                     /\ L(regs[a]) * L(regs[b]) <= 40000
                     /\ DivOk(regs[a], regs[b]) /\ Step([op |-> "div", a |-> a, b |-> b], [Quotient(regs[a], regs[b]) EXCEPT !.dg = regs[a].dg - regs[b].dg])
\* values to ask for: those present and one that is not
Asks(p, k) == Rng(KeyVals(p, k)) \cup {99}
Reqs(p, m) == UNION {{f \in [K -> Int \cap UNION {Asks(p, k) : k \in K}] : \A k \in K : f[k] \in Asks(p, k)} :
                  K \in {S \in SUBSET AxAll(p) : S # {} /\ Cardinality(S) <= m}}
ReqSeq(f) == LET ks == SeqSet(DOMAIN f) IN [i \in 1..Len(ks) |-> <<ks[i], f[ks[i]]>>]
DoSlice == /\ (On("slice") \/ On("slicek"))
           /\ \E a \in Unary, keep \in BOOLEAN : \E f \in Reqs(regs[a], IF fresh THEN 2 ELSE 1) :
                     /\ (IF keep THEN On("slicek") ELSE On("slice"))
                     /\ SliceOk(regs[a], f)
                     /\ Step([op |-> "slice", a |-> a, req |-> ReqSeq(f), keep |-> IF keep THEN 1 ELSE 0], Slice(regs[a], f, keep))
Renamings(p) == LET K == Keys(p) IN
    {[k \in {k1} |-> "n"] : k1 \in K} \cup {[k \in {k1, k2} |-> IF k = k1 THEN k2 ELSE k1] : k1, k2 \in {kk \in K : Cardinality(K) > 1}}
    \cup {[k \in {k1, k2} |-> IF k = k1 THEN "n" ELSE "m"] : k1, k2 \in K}
DoRekey == /\ On("rekey")
           /\ \E a \in Unary : \E m \in {f \in Renamings(regs[a]) : Cardinality({Ren(f, k) : k \in Keys(regs[a])}) = Cardinality(Keys(regs[a]))} :
                     Step([op |-> "rekey", a |-> a, map |-> ReqSeq(m)], Rename(regs[a], m))
Perms(N) == {f \in [1..N -> 1..N] : Cardinality({f[i] : i \in 1..N}) = N}
DoRedim == /\ On("redim")
           /\ \E a \in Unary : \E f \in Perms(Len(regs[a].ax)) :
                     /\ Len(regs[a].ax) >= 1
                     /\ Step([op |-> "redim", a |-> a, perm |-> f], Permute(regs[a], f))
\* Sorting; rows with equal sort values may come in any order, so keys with repeats are only compared as sets
DoSort == /\ On("sort")
          /\ \E a \in Unary : \E k \in Keys(regs[a]) :
                     Step([op |-> "sort", a |-> a, key |-> k], SortBy(regs[a], k))
RescaleTo == {[lg |-> 0, c |-> 0], [lg |-> 1, c |-> 0], [lg |-> 0, c |-> 3], [lg |-> 1, c |-> -2], [lg |-> 0, c |-> -1], [lg |-> 1, c |-> 1]}
DoRescale == /\ On("rescale")
             /\ \E a \in Unary : \E s \in {r \in RescaleTo : regs[a].dg = 0 \/ r.lg = 1} :
                     Step([op |-> "rescale", a |-> a, to |-> s], [regs[a] EXCEPT !.ps = s])
PowSmall(p, K) == LET N == ProdInt([i \in 1..Len(p.ax) |-> IF AxKeys(p.ax[i]) \subseteq K THEN Len(p.ax[i].vs) ELSE 1])
                  IN N <= 6 /\ \A j \in 1..Len(p.t) : p.t[j][2] <= 12 /\ p.t[j][1] <= 12
DoCollapse == /\ On("collapse")
              /\ \E a \in Unary : \E K \in SUBSET Rng(regs[a].mg) :
                     /\ CollapseOk(regs[a], K) /\ PowSmall(regs[a], K)
                     /\ LET N == ProdInt([i \in 1..Len(regs[a].ax) |-> IF AxKeys(regs[a].ax[i]) \subseteq K THEN Len(regs[a].ax[i].vs) ELSE 1])
                        IN Step([op |-> "collapse", a |-> a, k |-> SeqSet(K)], [Collapse(regs[a], K, [lg |-> regs[a].ps.lg, c |-> regs[a].ps.c * N]) EXCEPT !.dg = regs[a].dg * N])
\* pooling
DoAdd == /\ On("add")
         /\ \E a, b \in 1..n : /\ (fresh \/ a = n \/ b = n) /\ Okay(a) /\ Okay(b)
                /\ LET ps == <<regs[a], regs[b]>> IN PoolOk(ps) /\ regs[a].dg = regs[b].dg /\ Step([op |-> "add", as |-> <<a, b>>], Pool(ps))
DoAdd3 == /\ On("add")
          /\ \E a, b, c \in 1..n : /\ (fresh \/ n \in {a, b, c}) /\ Okay(a) /\ Okay(b) /\ Okay(c)
                /\ LET ps == <<regs[a], regs[b], regs[c]>> IN PoolOk(ps) /\ regs[a].dg = regs[b].dg /\ regs[c].dg = regs[b].dg /\ Step([op |-> "add", as |-> <<a, b, c>>], Pool(ps))
\* pooling has no meaning when something fixed differs between distributions that have axes
PoolClash(p, q) == /\ p.mg = q.mg /\ p.cd = q.cd /\ p.ax # <<>> /\ q.ax # <<>> /\ ScKeys(p) = ScKeys(q)
                   /\ \E k \in ScKeys(p) : ScOf(p, k) # ScOf(q, k)
\* storing and loading: in memory (0) or through a file (1), alone or together with another register
\* a name stands for one distribution: storing two of the same name together would lose one of them
SameName(p, q) == p.mg = q.mg /\ p.cd = q.cd
DoStoreClash == /\ On("store") \/ On("refuse")
                /\ \E a \in Unary, b \in 1..n : /\ a # b /\ SameName(regs[a], regs[b])
                                              /\ Look([op |-> "refuse", a |-> a, b |-> b, call |-> "store", k |-> <<>>])
DoStore == /\ On("store")
           /\ \E a \in Unary, m \in {0, 1}, b \in 0..n :
                     /\ (b # 0 => (b # a /\ ~SameName(regs[a], regs[b])))
                     /\ Step([op |-> "store", a |-> a, mode |-> m, b |-> b], regs[a])
\* re-binning onto grids of new variables g, h (f: a fixed one), a cell's value being a form of its assignment
MargSum(p, x, sgn) == LET as == SelectSeq([i \in 1..Len(p.ax) |-> i], LAMBDA i : AxKeys(p.ax[i]) \subseteq Rng(p.mg))
   IN FoldSeq(LAMBDA i, acc : IF sgn = 1 THEN acc + p.ax[i].vs[x[i]][1] ELSE p.ax[i].vs[x[i]][1] - acc, 0, as)
CellVal(p, x, f) == CASE f = 1 -> MargSum(p, x, 1) [] f = 2 -> MargSum(p, x, -1) [] f = 3 -> 4
                      [] OTHER -> x[1] * 10 - MargSum(p, x, 1)
Grids == {<<<<"g">>, <<<<0, 5, 9>>>>, <<>>>>, <<<<"g">>, <<<<4>>>>, <<>>>>, <<<<"g">>, <<<<-3, 2, 3, 4, 20>>>>, <<ScV("f", 7)>>>>,
          <<<<"g", "h">>, <<<<0, 5, 9>>, <<1, 4>>>>, <<>>>>, <<<<"h", "g">>, <<<<100, 200>>, <<-5, 0, 5>>>>, <<>>>>}
RebinOk(p) == /\ p.ax # <<>> /\ \A i \in 1..Len(p.sc) : p.sc[i].u = 0
              /\ \A i \in 1..Len(p.ax) : AxKeys(p.ax[i]) \subseteq Rng(p.mg) \/ AxKeys(p.ax[i]) \subseteq Rng(p.cd)
              /\ {"f", "g", "h"} \cap Keys(p) = {}
DoRebin == /\ On("rebin")
           /\ \E a \in Unary, G \in Grids, f \in {<<1, 2>>, <<2, 4>>, <<3, 1>>, <<4, 3>>} :
                 /\ RebinOk(regs[a])
                 /\ LET p == regs[a]
                        idx == AllIdx(Dims(p))
                        cv(x, b) == CellVal(p, x, f[b])
                    IN Step([op |-> "rebin", a |-> a, ks |-> G[1], edges |-> G[2], fixed |-> G[3],
                             cells |-> [b \in 1..Len(G[1]) |-> [j \in 1..Len(idx) |-> cv(idx[j], b)]]],
                            Rebin(p, G[1], G[2], G[3], cv))
\* observations
DoExpect == /\ On("expect")
            /\ \E a \in Unary, e \in {1, 2, 3} : \E K \in SUBSET Rng(regs[a].mg) :
                     /\ K # {} /\ K \cap AxAll(regs[a]) # {} /\ Total(regs[a]) # RZero
                     /\ \A i \in 1..Len(regs[a].sc) : regs[a].sc[i].u = 1 => regs[a].sc[i].k \notin K
                     /\ (e > 1 => fresh) /\ L(regs[a]) <= 512
                     /\ LET ks == SeqSet(K \cap AxAll(regs[a])) IN
                        Look([op |-> "expect", a |-> a, k |-> SeqSet(K), e |-> e,
                              val |-> [i \in 1..Len(ks) |-> <<ks[i], Expect(regs[a], K, ks[i], e)>>],
                              \* remaining axes, in order, of each value
                              rest |-> LET S == ExpAxes(regs[a], K) IN SelectSeq([i \in 1..Len(regs[a].ax) |-> i], LAMBDA i : i \notin S)])
\* look up the marginal or conditioning variables
Groups(p, S) == SelectSeq([i \in 1..Len(p.ax) |-> Filter(p.ax[i].ks, S)], LAMBDA g : g # <<>>)
DoLookup == /\ On("lookup")
            /\ \E a \in Unary, w \in {"marg", "cond"} :
                     /\ (w = "cond" => regs[a].cd # <<>>)
                     /\ LET S == IF w = "marg" THEN Rng(regs[a].mg) ELSE Rng(regs[a].cd) IN
                        Look([op |-> "lookup", a |-> a, which |-> w, groups |-> Groups(regs[a], S), fixed |-> SeqSet(S \cap ScKeys(regs[a]))])
\* refusals: calls without probabilistic meaning
RefuseUnary(p) ==
     {[call |-> "marginalise", k |-> <<k>>] : k \in Rng(p.cd) \cup {"zz"}}
  \cup {[call |-> "marginalise", k |-> <<k>>] : k \in Rng(p.mg) \cap ScKeys(p)}
  \cup {[call |-> "marginal", k |-> <<k>>] : k \in Rng(p.cd) \cup {"zz"}}
  \cup {[call |-> "marginal", k |-> <<k>>] : k \in {kk \in Rng(p.mg) \cap AxAll(p) : ~ NoSplit(p, {kk})}}
  \cup {[call |-> "conditionalise", k |-> <<k>>] : k \in Rng(p.cd) \cup {"zz"}}
  \cup {[call |-> "prod", k |-> <<k>>] : k \in Rng(p.cd) \cup {"zz"} \cup (Rng(p.mg) \cap ScKeys(p))}
  \cup {[call |-> "expectation", k |-> <<k>>] : k \in Rng(p.cd) \cup {"zz"}}
  \cup {[call |-> "slice", k |-> <<"zz">>]}
  \cup {[call |-> "rekeydup", k |-> <<k1, k2>>] : k1 \in Keys(p), k2 \in {kk \in Keys(p) : Cardinality(Keys(p)) > 1}}
  \cup {[call |-> "conditionalise", k |-> SeqSet(K)] : K \in {KK \in SUBSET Rng(p.mg) : KK \cap ScKeys(p) # {} /\ (Rng(p.mg) \cap ScKeys(p)) \ KK # {}}}
  \cup {[call |-> "transprob", k |-> <<p.ax[i].ks[1], p.ax[j].ks[1]>>] : i, j \in 1..Len(p.ax)}
  \cup {[call |-> "shortprob", k |-> <<k>>] : k \in AxAll(p)}
  \cup (IF p.ax = <<>> THEN {[call |-> "arrprob", k |-> <<>>]} ELSE {[call |-> "flatprob", k |-> <<>>]})
  \cup (IF Len(p.ax) > 1 THEN {[call |-> "ravelprob", k |-> <<>>]} ELSE {})
  \cup {[call |-> "badshape", k |-> <<k>>] : k \in AxAll(p)}
  \cup {[call |-> "dropdim", k |-> <<k>>] : k \in AxAll(p)}
  \cup {[call |-> "scaldim", k |-> <<k>>] : k \in ScKeys(p)}
DoRefuse1 == /\ On("refuse")
             /\ \E a \in Unary : \E c \in RefuseUnary(regs[a]) :
                     /\ (c.call = "rekeydup" => c.k[1] # c.k[2])
                     /\ (c.call = "transprob" => Len(KeyVals(regs[a], c.k[1])) < Len(KeyVals(regs[a], c.k[2])))
                     /\ Look([op |-> "refuse", a |-> a, b |-> 0] @@ c)
SharedMarg(p, q) == Rng(p.mg) \cap Rng(q.mg) # {} /\ \A k \in Rng(p.mg) \cup Rng(q.mg) : k \in ScKeys(p) => ScOf(p, k).u = 0
                    /\ (k \in ScKeys(q) => ScOf(q, k).u = 0)
\* conditions neither shared by all conditional factors nor supplied as marginals
BadConds(p, q) == LET M == Rng(p.mg) \cup Rng(q.mg)  lp == Rng(p.cd) \ M  lq == Rng(q.cd) \ M
                  IN lp # {} /\ lq # {} /\ lp # lq
\* a condition whose values differ between the factors
ValsOf(p, k) == IF k \in ScKeys(p) THEN <<ScOf(p, k).v>> ELSE KeyVals(p, k)
Unspec(p, k) == k \in ScKeys(p) /\ ScOf(p, k).u = 1
CondClash(p, q) == \E k \in Keys(p) \cap Keys(q) : /\ k \in Rng(p.cd) \cup Rng(q.cd)
                      /\ ~Unspec(p, k) /\ ~Unspec(q, k) /\ ValsOf(p, k) # ValsOf(q, k)
DoRefuse2 == /\ On("refuse")
             /\ \E a, b \in 1..n :
                     /\ (fresh \/ a = n \/ b = n) /\ Okay(a) /\ Okay(b)
                     /\ \/ SharedMarg(regs[a], regs[b]) /\ Look([op |-> "refuse", a |-> a, b |-> b, call |-> "product", k |-> <<>>])
                        \/ BadConds(regs[a], regs[b]) /\ Look([op |-> "refuse", a |-> a, b |-> b, call |-> "product", k |-> <<>>])
                        \/ a # b /\ CondClash(regs[a], regs[b]) /\ Look([op |-> "refuse", a |-> a, b |-> b, call |-> "product", k |-> <<>>])
                        \/ a # b /\ Rng(regs[a].cd) # Rng(regs[b].cd) /\ Look([op |-> "refuse", a |-> a, b |-> b, call |-> "divide", k |-> <<>>])
                        \/ (PoolClash(regs[a], regs[b]) \/ (regs[a].ps # regs[b].ps /\ regs[a].mg = regs[b].mg /\ regs[a].cd = regs[b].cd))
                             /\ Look([op |-> "refuse", a |-> a, b |-> b, call |-> "add", k |-> <<>>])
                        \/ a # b /\ (Rng(regs[a].mg) # Rng(regs[b].mg) \/ Rng(regs[a].cd) # Rng(regs[b].cd))
                             /\ Look([op |-> "refuse", a |-> a, b |-> b, call |-> "add", k |-> <<>>])

Init == regs = <<>> /\ acts = <<>>
Next == DoLoad \/ DoMarg \/ DoMarginal \/ DoCond \/ DoProd2 \/ DoProd3 \/ DoDiv \/ DoSlice \/ DoRekey
        \/ DoRedim \/ DoSort \/ DoRescale \/ DoCollapse \/ DoAdd \/ DoAdd3 \/ DoRebin \/ DoStore \/ DoStoreClash \/ DoExpect \/ DoLookup \/ DoRefuse1 \/ DoRefuse2
Spec == Init /\ [][Next]_vars

(******************************** laws ************************************)
LastAct == acts'[Len(acts')]
LastReg == regs'[Len(regs')]
TypeOK == \A i \in 1..Len(regs) : IsEmpty(regs[i]) \/ WellFormed(regs[i])
\* registers are immutable
Immutable == [][acts # <<>> => \A i \in 1..Len(regs) : regs'[i] = regs[i]]_vars
\* summing out preserves the mass of every condition
MassConserved == [][(acts # <<>> /\ LastAct.op \in {"marg", "marginal", "rebin"}) => MassPerCond(LastReg) = MassPerCond(regs[LastAct.a])]_vars
\* every conditional slice sums to one, or is all zero
Normalised == [][(acts # <<>> /\ LastAct.op = "cond") =>
   LET m == MassPerCond(LastReg) IN \A c \in DOMAIN m : m[c] \in {RZero, ROne}]_vars
\* relabelling keeps the meaning
MeaningKept == [][(acts # <<>> /\ LastAct.op \in {"redim", "sort", "rescale", "store"}) => Meaning(LastReg) = Meaning(regs[LastAct.a])]_vars
\* Bayes: quotient times divisor restores the dividend
Bayes == [][(acts # <<>> /\ LastAct.op = "div") =>
   LET q == regs[LastAct.b]  back == Product(<<LastReg, q>>, LastReg.ps)
   IN Big(LastReg) \/ L(LastReg) * L(q) > 40000 \/ Meaning(back) = Meaning(regs[LastAct.a])]_vars
\* chain rule: the mass of a product of a marginal table and a conditional normalised one is the marginal's
Commutes == [][(acts # <<>> /\ LastAct.op = "prod" /\ Len(LastAct.as) = 2) =>
   Meaning(LastReg) = Meaning(Product(<<regs[LastAct.as[2]], regs[LastAct.as[1]]>>, LastReg.ps))]_vars
\* slicing never invents probabilities
SliceSub == [][(acts # <<>> /\ LastAct.op = "slice" /\ ~IsEmpty(LastReg)) => Meaning(LastReg) \subseteq Meaning(regs[LastAct.a])]_vars
\* pooling loses and invents nothing
PoolMass == [][(acts # <<>> /\ LastAct.op = "add") =>
   /\ Total(LastReg) = RSumSeq([i \in 1..Len(LastAct.as) |-> Total(regs[LastAct.as[i]])])
   /\ Len(LastReg.t) = FoldSeq(LAMBDA i, acc : acc + Len(regs[i].t), 0, LastAct.as)]_vars
EmitEdge == PrintT("@@" \o ToJson([p |-> acts', r |-> IF Len(regs') = Len(regs) THEN <<>> ELSE IF acts = <<>> THEN regs' ELSE <<LastReg>>]))
=============================================================================
