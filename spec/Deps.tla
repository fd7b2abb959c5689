-------------------------------- MODULE Deps --------------------------------
(***************************************************************************)
(* Building models out of variables.  A behaviour makes fields, unites and *)
(* conditions what it has, combines models into models, extends fields and *)
(* adds explicit dependencies, always with the objects built so far, which *)
(* stay as they are unless they are the one extended.  A model is its      *)
(* variables in the order they were brought in and the edges declared;     *)
(* its leaves, stems and roots are read off the edges.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NV, Depth, Ops, Three
VARIABLES objs, acts
vars == <<objs, acts>>
Range(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Dedupe(_, _)
Dedupe(s, done) == IF s = <<>> THEN <<>>
                   ELSE IF Head(s) \in done THEN Dedupe(Tail(s), done)
                   ELSE <<Head(s)>> \o Dedupe(Tail(s), done \cup {Head(s)})
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Distinct(s) == Cardinality(Range(s)) = Len(s)
Front(s) == SubSeq(s, 1, Len(s) - 1)
Last(s) == s[Len(s)]

\* arch: "self" built of fields, "comp" of models, "expl" with explicit dependencies
Var(v) == [kind |-> "var", ord |-> <<v>>, edges |-> {}, arch |-> "none", lent |-> FALSE]
Fld(s) == [kind |-> "fld", ord |-> s, edges |-> {}, arch |-> "none", lent |-> FALSE]
Dep(s, e, a) == [kind |-> "dep", ord |-> s, edges |-> e, arch |-> a, lent |-> FALSE]
Kids(o, v) == {e[2] : e \in {f \in o.edges : f[1] = v}}
Parents(o, v) == {e[1] : e \in {f \in o.edges : f[2] = v}}
Leafs(o) == SelectSeq(o.ord, LAMBDA v : Kids(o, v) = {})
Roots(o) == SelectSeq(o.ord, LAMBDA v : Kids(o, v) # {} /\ Parents(o, v) = {})
Stems(o) == SelectSeq(o.ord, LAMBDA v : Kids(o, v) # {} /\ Parents(o, v) # {})
\* the variables that leaves directly depend on
Preds(o) == SelectSeq(o.ord, LAMBDA v : Kids(o, v) \cap Range(Leafs(o)) # {})
IsDep(o) == o.kind = "dep"
RECURSIVE Reach(_, _, _)
Reach(e, s, n) == IF n = 0 THEN s ELSE Reach(e, s \cup {x[2] : x \in {y \in e : y[1] \in s}}, n - 1)
Acyclic(e) == \A v \in 1..NV : v \notin Reach(e, {x[2] : x \in {y \in e : y[1] = v}}, NV)

No == [kind |-> "no", ord |-> <<>>, edges |-> {}, arch |-> "none", lent |-> FALSE]
Open == [No EXCEPT !.kind = "open"]        \* not specified
(* a model of fields: all conditional on the last *)
OfFields(ss) ==
  LET all == Concat(ss)
  IN IF ~Distinct(all) THEN No
     ELSE IF Len(ss) = 1 THEN Dep(all, {}, "self")
     ELSE Dep(all, {<<r, l>> : r \in Range(Last(ss)), l \in Range(Concat(Front(ss)))}, "self")
(* a model of models: all their dependencies *)
OfDeps(os) ==
  LET e == UNION {os[i].edges : i \in 1..Len(os)}
      s == Dedupe(Concat([i \in 1..Len(os) |-> Leafs(os[i])]) \o Concat([i \in 1..Len(os) |-> os[i].ord]), {})
  IN IF ~Acyclic(e) THEN Open
     ELSE Dep(s, e, IF \E i \in 1..Len(os) : os[i].arch = "expl" THEN "expl" ELSE "comp")
Make(os) == IF \A i \in 1..Len(os) : IsDep(os[i]) THEN OfDeps(os)
            ELSE IF \E i \in 1..Len(os) : IsDep(os[i]) THEN No
            ELSE OfFields([i \in 1..Len(os) |-> os[i].ord])
(* uniting: variables join the leaves of a simple model *)
And(x, y) ==
  IF IsDep(x) THEN (IF IsDep(y) THEN OfDeps(<<y, x>>) ELSE No)
  ELSE IF ~IsDep(y) THEN (IF Distinct(x.ord \o y.ord) THEN Fld(x.ord \o y.ord) ELSE No)
  ELSE IF y.arch # "self" THEN Open
  ELSE IF y.edges = {} THEN OfFields(<<x.ord \o y.ord>>)
  ELSE OfFields(<<x.ord \o Leafs(y), Roots(y)>>)
(* conditioning: models without conditions count as fields *)
Plain(o) == IF IsDep(o) /\ o.edges = {} THEN Fld(o.ord) ELSE o
Or(x, y) == IF IsDep(Plain(x)) \/ IsDep(Plain(y)) THEN No ELSE OfFields(<<x.ord, y.ord>>)

(***************************** behaviours **********************************)
Init == objs = [v \in 1..NV |-> Var(v)] /\ acts = <<>>
Slots == 1..Len(objs)
Made == {i \in Slots : i > NV}
\* variables come into use in order: their names mean nothing
InUse(a) == UNION {Range(a[i].use) : i \in 1..Len(a)}
Fresh(used, s) == LET new == Dedupe(SelectSeq(s, LAMBDA v : v \notin used), {})
                  IN \A i \in 1..Len(new) : new[i] = Cardinality(used) + i
UseOf(s) == Concat([i \in 1..Len(s) |-> IF s[i] <= NV THEN <<s[i]>> ELSE <<>>])
Show(o) == [kind |-> o.kind, ord |-> o.ord, edges |-> o.edges, leafs |-> Leafs(o), stems |-> Stems(o), roots |-> Roots(o), preds |-> Preds(o)]
Lend(os, s) == [i \in 1..Len(os) |-> IF i \in Range(s) THEN [os[i] EXCEPT !.lent = TRUE] ELSE os[i]]
Live == Len(acts) < Depth
\* the last act of a behaviour works with something made
Matters(s) == Len(acts) > 0 => (\E i \in 1..Len(s) : s[i] > NV) \/ Len(acts) < Depth - 1
Do(op, s, o) ==
  /\ Live /\ o.kind # "open" /\ Fresh(InUse(acts), UseOf(s)) /\ Matters(s)
  /\ IF o.kind = "no" THEN Len(acts) = Depth - 1 /\ UNCHANGED objs ELSE objs' = Append(Lend(objs, s), o)
  /\ acts' = Append(acts, [op |-> op, s |-> s, use |-> UseOf(s), o |-> Show(o)])
Field == "fld" \in Ops /\ \E n \in 1..3 : \E s \in [1..n -> 1..NV] :
           Do("fld", s, IF Distinct(s) THEN Fld([i \in 1..n |-> s[i]]) ELSE No)
Unite == "and" \in Ops /\ \E i, j \in Slots : Do("and", <<i, j>>, And(objs[i], objs[j]))
Given == "or" \in Ops /\ \E i, j \in Slots : Do("or", <<i, j>>, Or(objs[i], objs[j]))
Model == "sd" \in Ops /\ \E n \in {1, 2} \cup Three : \E s \in [1..n -> Slots] :
           /\ n = 3 => \A i, j \in 1..3 : i # j => s[i] # s[j]
           /\ Do("sd", [i \in 1..n |-> s[i]], Make([i \in 1..n |-> objs[s[i]]]))
\* a field that no model holds takes another variable, or two
Extend == "add" \in Ops /\ Live /\ \E k \in Made : objs[k].kind = "fld" /\ ~objs[k].lent /\ \E n \in 1..2 : \E t \in [1..n -> 1..NV] :
            LET s == [i \in 1..n |-> t[i]]
                ok == Distinct(objs[k].ord \o s)
                o == [objs[k] EXCEPT !.ord = @ \o s]
            IN /\ Fresh(InUse(acts), s) /\ (~ok => Len(acts) = Depth - 1)
               /\ objs' = IF ok THEN [objs EXCEPT ![k] = o] ELSE objs
               /\ acts' = Append(acts, [op |-> "add", s |-> <<k>> \o s, use |-> s, o |-> Show(IF ok THEN o ELSE No)])
\* explicit dependencies replace those a model was built with, and add to each other
Explicit == "dep" \in Ops /\ Live /\ \E k \in Made : IsDep(objs[k]) /\ \E a, b \in {Q \in SUBSET Range(objs[k].ord) : Q # {} /\ Cardinality(Q) <= 2} :
              LET e == {<<r, l>> : r \in b, l \in a}
                  all == e \cup (IF objs[k].arch = "expl" THEN objs[k].edges ELSE {})
                  o == Dep(objs[k].ord, all, "expl")
                  ok == objs[k].arch # "comp" /\ a \cap b = {}
              IN /\ (a \cap b = {} \/ Len(acts) = Depth - 1)
                 /\ (ok => Acyclic(all))
                 /\ (~ok => Len(acts) = Depth - 1)
                 /\ objs' = IF ok THEN [objs EXCEPT ![k] = o] ELSE objs
                 /\ acts' = Append(acts, [op |-> "dep", s |-> <<k>>, use |-> <<>>, out |-> a, inp |-> b, o |-> Show(IF ok THEN o ELSE No)])
Next == Field \/ Unite \/ Given \/ Model \/ Extend \/ Explicit
Spec == Init /\ [][Next]_vars

(****************************** properties *********************************)
\* a variable appears once and is leaf, stem or root
Placed == \A i \in Slots : LET o == objs[i] IN
            /\ Distinct(o.ord)
            /\ Range(Leafs(o)) \cup Range(Stems(o)) \cup Range(Roots(o)) = Range(o.ord)
            /\ Len(Leafs(o)) + Len(Stems(o)) + Len(Roots(o)) = Len(o.ord)
            /\ \A e \in o.edges : e[1] \in Range(o.ord) /\ e[2] \in Range(o.ord) /\ e[2] \notin Range(Roots(o)) /\ e[1] \notin Range(Leafs(o))
            /\ (o.edges # {} => Roots(o) # <<>> /\ Leafs(o) # <<>> /\ Preds(o) # <<>>)
\* building leaves everything that was there as it was, except what is extended
Kept == [][\A i \in Slots : (objs'[i].ord = objs[i].ord /\ objs'[i].edges = objs[i].edges)
             \/ (acts'[Len(acts')].op \in {"add", "dep"} /\ acts'[Len(acts')].s[1] = i)]_vars
\* the order in which models are combined changes no dependency
Order == [][LET a == acts'[Len(acts')] IN
             (a.op = "sd" /\ a.o.kind = "dep" /\ \A i \in 1..Len(a.s) : IsDep(objs[a.s[i]])) =>
               LET o == OfDeps([i \in 1..Len(a.s) |-> objs[a.s[Len(a.s) + 1 - i]]])
               IN o.edges = a.o.edges /\ Range(Leafs(o)) = Range(a.o.leafs) /\ Range(Roots(o)) = Range(a.o.roots)]_vars
EmitEdge == PrintT("@@" \o ToJson([p |-> acts', r |-> <<>>]))
=============================================================================
