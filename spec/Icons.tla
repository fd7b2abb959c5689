------------------------------- MODULE Icons -------------------------------
(***************************************************************************)
(* Symbolic expressions and functionals.  An expression is a polynomial in *)
(* x and y, alone, in a tuple or in a dictionary, or an invertible one of  *)
(* x; it is evaluated for scalars, arrays and both.  A functional gathers  *)
(* functions (symbolic, or callables with named inputs) of inputs x, y for *)
(* outputs a, b; symbolic outputs can be used to define further ones.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Modes, Depth, Kinds
VARIABLES mode, obj, acts
vars == <<mode, obj, acts>>
Rng(s) == {s[i] : i \in 1..Len(s)}

(***************************** polynomials *********************************)
\* coefficients of 1, x, y, x y, x^2
Poly == << <<1, 2, 0, 0, 0>>, <<3, 0, 0, 1, 0>>, <<0, 1, -1, 0, 0>>, <<-2, 0, 0, 0, 1>>, <<0, 0, 3, 0, 0>>, <<5, 0, 0, 0, 0>>, <<0, -1, 0, 2, 1>> >>
At(p, x, y) == p[1] + p[2] * x + p[3] * y + p[4] * x * y + p[5] * x * x
UsesX(p) == p[2] # 0 \/ p[4] # 0 \/ p[5] # 0
UsesY(p) == p[3] # 0 \/ p[4] # 0
Used(p) == (IF UsesX(p) THEN {"x"} ELSE {}) \cup (IF UsesY(p) THEN {"y"} ELSE {})
Lines == {<<a, b>> \in {-3, -1, 1, 2, 4} \X {-1, 0, 6} : TRUE}      \* a x + b
Xs == <<2, 0, -3>>
Ys == <<5, 1, -2>>

Nothing == [multi |-> "", ps |-> <<>>, sym |-> "", line |-> <<>>, fs |-> <<>>]
Init == mode \in Modes /\ obj = Nothing /\ acts = <<>>
LAST == {"ask", "refuse"}
Live == acts # <<>> /\ acts[Len(acts)].op \notin LAST

(**************************** expressions **********************************)
Define ==
  /\ mode = "expr" /\ Len(acts) < Depth /\ (acts # <<>> => Live)
  /\ \E m \in {"one", "tuple", "dict", "inv"}, sym \in {"plain", "positive", "real", "var"} :
       \E ps \in {s \in UNION {[1..n -> 1..Len(Poly)] : n \in 1..3} :
                     /\ (m \in {"one", "inv"}) = (Len(s) = 1)
                     /\ (Len(s) = 2 => s[1] # s[2]) /\ (Len(s) = 3 => s[1] < s[2] /\ s[2] # s[3] /\ s[1] # s[3] /\ (s[1] + s[2] + s[3]) % 4 = 0)
                     /\ (Len(s) > 1 => 6 \notin Rng(s) /\ sym \in {"plain", "positive"} /\ (acts = <<>> \/ (Len(s) = 2 /\ s[1] < s[2])))
                     /\ (m = "inv" => s = <<1>>) /\ (acts # <<>> => sym = "plain")} :
       \E l \in (IF m = "inv" THEN Lines ELSE {<<0, 0>>}) :
         /\ obj' = [obj EXCEPT !.multi = m, !.ps = ps, !.sym = sym, !.line = l]
         /\ acts' = Append(acts, [op |-> "define", o |-> obj'])
  /\ UNCHANGED mode
Which == CASE obj.multi = "one" -> {[t |-> "call", i |-> 1]}
           [] obj.multi = "tuple" -> {[t |-> "index", i |-> i] : i \in 1..Len(obj.ps)} \cup {[t |-> "last", i |-> Len(obj.ps)]}
           [] OTHER -> {[t |-> "key", i |-> i] : i \in 1..Len(obj.ps)}
Forms == {"kw", "dict", "vars", "split", "np", "arrays", "outer", "mixx", "mixy", "bool", "exact", "pos", "posarr"}
Shape(form, p) ==
  CASE form \in {"kw", "dict", "vars", "split", "np", "exact", "pos"} -> <<At(p, Xs[1], Ys[1])>>
    [] form = "bool" -> <<At(p, 1, 0)>>
    [] form \in {"arrays", "posarr"} -> [k \in 1..3 |-> At(p, Xs[k], Ys[k])]
    [] form = "outer" -> [k \in 1..6 |-> At(p, Xs[((k - 1) \div 2) + 1], Ys[((k - 1) % 2) + 1])]
    [] form = "mixx" -> [k \in 1..3 |-> At(p, Xs[k], Ys[1])]
    [] form = "mixy" -> [k \in 1..3 |-> At(p, Xs[1], Ys[k])]
Ask ==
  /\ mode = "expr" /\ Live
  /\ IF obj.multi = "inv"
     THEN \E k \in 1..3, form \in {"pos", "kw", "np", "array"}, i \in {0, 1, 2} :      \* forwards, back, back by -1
            LET f(x) == obj.line[1] * x + obj.line[2] IN
            acts' = Append(acts, [op |-> "ask", w |-> [t |-> "inv", i |-> i], form |-> form,
                                  v |-> IF i = 0 THEN Xs[k] ELSE f(Xs[k]), r |-> <<IF i = 0 THEN f(Xs[k]) ELSE Xs[k]>>])
     ELSE \E w \in Which, form \in Forms :
            LET p == Poly[obj.ps[w.i]] IN
            /\ (form \in {"pos", "posarr"} => Cardinality(Used(p)) = 1)
            /\ (form \in {"arrays", "outer", "mixx", "mixy"} => Used(p) = {"x", "y"})
            /\ (obj.multi = "inv" => form # "vars") /\ (Len(acts) > 1 => form \in {"kw", "arrays"})
            /\ acts' = Append(acts, [op |-> "ask", w |-> w, form |-> form, v |-> 0, r |-> Shape(form, p)])
  /\ UNCHANGED <<mode, obj>>

(***************************** functionals *********************************)
\* a function for out (a set) of inp (a set); symbolic ones say how they are written
Plain(p) == [k |-> "icon", p |-> p, via |-> ""]
Outs == {{"a"}, {"b"}, {"c"}}
OutPolys == {1, 2, 3, 5, 7}
Fs == obj.fs
Has(o) == \E i \in 1..Len(Fs) : Fs[i].out = o
The(o) == Fs[CHOOSE i \in 1..Len(Fs) : Fs[i].out = o]
\* 2 a - x, where a has been defined symbolically
Via(p) == <<2 * p[1], 2 * p[2] - 1, 2 * p[3], 2 * p[4], 2 * p[5]>>
AddIcon ==
  /\ "icon" \in Kinds /\ mode = "functional" /\ Len(acts) < Depth /\ (acts # <<>> => Live) /\ (Fs # <<>> => Fs[1].k = "icon")
  /\ \E o \in Outs, how \in {"name", "var", "symbol"} :
     \E p \in {Poly[i] : i \in OutPolys} \cup {Via(The(q).p) : q \in {q \in Outs : Has(q) /\ q # o}} :
       /\ ~Has(o) /\ (Len(acts) > 1 => how = "var" /\ p \in {Poly[2], Poly[3]} \cup {Via(The(q).p) : q \in {q \in Outs : Has(q)}})
       /\ obj' = [obj EXCEPT !.fs = Append(Fs, [k |-> "icon", out |-> o, inp |-> Used(p), p |-> p])]
       /\ acts' = Append(acts, [op |-> "addicon", out |-> SetToSeq(o), how |-> how, p |-> p,
                                via |-> LET q == {q \in Outs : Has(q) /\ q # o /\ Via(The(q).p) = p} IN IF q = {} THEN <<>> ELSE SetToSeq(CHOOSE s \in q : TRUE)])
  /\ UNCHANGED mode
AddFun ==
  /\ "fun" \in Kinds /\ mode = "functional" /\ Len(acts) < Depth /\ (acts # <<>> => Live) /\ (Fs # <<>> => Fs[1].k = "fun")
  /\ \E o \in Outs \cup {{"a", "b"}, {"b", "c"}}, inp \in {{"x"}, {"y"}, {"x", "y"}}, how \in {"name", "var", "tuple"}, fix \in 0..2 :
       /\ ~Has(o) /\ (Len(acts) > 0 => how = "name") /\ (Len(acts) > 1 => fix = 1)
       /\ obj' = [obj EXCEPT !.fs = Append(Fs, [k |-> "fun", out |-> o, inp |-> inp, fix |-> fix])]
       /\ acts' = Append(acts, [op |-> "addfun", out |-> SetToSeq(o), inp |-> SetToSeq(inp), how |-> how, fix |-> fix])
  /\ UNCHANGED mode
AskFun ==
  /\ mode = "functional" /\ Live
  /\ \E i \in 1..Len(Fs), form \in {"kw", "dict", "vars", "exact", "arrays", "extra"} :
       LET f == Fs[i] IN
       /\ (Len(acts) > 2 => form \in {"kw", "exact"})
       /\ acts' = Append(acts, [op |-> "ask", out |-> SetToSeq(f.out), form |-> form, inp |-> SetToSeq(f.inp),
                                r |-> IF f.k = "icon" THEN (IF form = "arrays" /\ f.inp # {} THEN [k \in 1..3 |-> At(f.p, Xs[k], Ys[k])] ELSE <<At(f.p, Xs[1], Ys[1])>>) ELSE <<>>,
                                fix |-> IF f.k = "fun" THEN f.fix ELSE 0, nth |-> i, n |-> Len(Fs)])
  /\ UNCHANGED <<mode, obj>>
Refusals == {"again", "out", "inp", "mixed", "noinp", "unknown", "two", "args"}
RefuseFun ==
  /\ mode = "functional" /\ Live
  /\ \E why \in Refusals :
       /\ CASE why = "noinp" -> Fs[1].k = "fun" [] why \in {"two", "args"} -> Fs[1].k = "icon" [] OTHER -> TRUE
       /\ acts' = Append(acts, [op |-> "refuse", why |-> why, out |-> SetToSeq(Fs[1].out), k |-> Fs[1].k, n |-> Len(Fs), free |-> {o \in {"a", "b", "c"} : ~Has({o})}])
  /\ UNCHANGED <<mode, obj>>
Next == Define \/ Ask \/ AddIcon \/ AddFun \/ AskFun \/ RefuseFun
Spec == Init /\ [][Next]_vars

(****************************** properties *********************************)
\* an inverse undoes what it inverts
Undone == obj.multi = "inv" => \A x \in -4..4 : \E y \in -30..30 : y = obj.line[1] * x + obj.line[2] /\ \A z \in -4..4 : obj.line[1] * z + obj.line[2] = y => z = x
\* an output has one function, of inputs only
Once == \A i, j \in 1..Len(Fs) : (Fs[i].out = Fs[j].out => i = j) /\ Fs[i].inp \subseteq {"x", "y"}
\* what does not name an input does not depend on it
Depends == \A i \in 1..Len(Fs) : Fs[i].k = "icon" /\ "y" \notin Fs[i].inp => \A y \in Rng(Ys) : At(Fs[i].p, 2, y) = At(Fs[i].p, 2, 0)
EmitEdge == PrintT("@@" \o ToJson([p |-> acts', r |-> <<>>]))
=============================================================================
