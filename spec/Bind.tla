-------------------------------- MODULE Bind -------------------------------
(***************************************************************************)
(* Functions attached to names: a value, a function or several of either   *)
(* by position or by name, with arguments and keywords fixed when they are *)
(* defined, and with a mapping of the variables supplied to positions and  *)
(* parameter names, directly or as differences.  A behaviour defines an    *)
(* object, changes its mapping, redefines it and calls it; the answer is   *)
(* which function was called and what it was given.                        *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, SequencesExt, Json, TLC
CONSTANTS Hosts, Depth, First, Wide, Thin
VARIABLES host, obj, acts
vars == <<host, obj, acts>>
Rng(s) == {s[i] : i \in 1..Len(s)}

(* names and the values they are supplied with *)
Given == {<<"x">>, <<"x", "y">>, <<"x", "x'">>, <<"x", "x'", "y", "y'">>}
Val(k) == CASE k = "x" -> 2 [] k = "y" -> 11 [] k = "x'" -> 5 [] k = "y'" -> 23
Primed(k) == k \in {"x'", "y'"}
Plain(k) == IF k = "x'" THEN "x" ELSE IF k = "y'" THEN "y" ELSE k
Prime(k) == CASE k = "x" -> "x'" [] k = "y" -> "y'"
FixedPos == <<100, 101>>
FixedKw == [k |-> "k", v |-> 200]
CallPos == <<7, 8>>

(* targets of a mapped name *)
Pos(i) == [t |-> "pos", i |-> i, n |-> ""]
As(n) == [t |-> "name", i |-> 0, n |-> n]
Drop == [t |-> "drop", i |-> 0, n |-> ""]
Keep == [t |-> "keep", i |-> 0, n |-> ""]
None == [t |-> "none", ks |-> <<>>, m |-> <<>>, b |-> 0]
\* a mapping of names ks to targets m, whose positions begin at b
Ok(t, ks, m, b) ==
  LET ps == {m[i].i : i \in {i \in 1..Len(ks) : m[i].t = "pos"}}
      np == Cardinality({i \in 1..Len(ks) : m[i].t = "pos"})
      mapped(k) == \E i \in 1..Len(ks) : ks[i] = k /\ m[i].t # "keep"
      used(k) == t = "delta" /\ ~Primed(k) /\ Prime(k) \in Rng(ks) /\ mapped(Prime(k))      \* by a difference
      kept == {ks[i] : i \in {i \in 1..Len(ks) : m[i].t = "keep" /\ ~used(ks[i])}}
      names == {m[i].n : i \in {i \in 1..Len(ks) : m[i].t = "name"}}
  IN /\ \E i \in 1..Len(ks) : m[i].t # "keep"
     /\ Cardinality(ps) = np /\ (IF np = 0 THEN b = 0 ELSE ps = b..(b + np - 1))
     /\ Cardinality(names) = Cardinality({i \in 1..Len(ks) : m[i].t = "name"}) /\ names \cap kept = {}
     /\ t = "delta" => \A i \in 1..Len(ks) : used(ks[i]) => m[i].t = "keep"
     /\ t = "delta" => \A i \in 1..Len(ks) : Primed(ks[i]) => Plain(ks[i]) \in Rng(ks)
Targets(ks) == {Keep, Drop, As("u")} \cup {As(k) : k \in Rng(ks) \ {"y", "y'"}} \cup
               (IF Len(ks) = 2 /\ ks[2] = "y" THEN {As("y")} ELSE {}) \cup {Pos(i) : i \in 0..2}
MapsOf(ks) == UNION {{[t |-> t, ks |-> ks, m |-> m, b |-> b] : m \in {m \in [1..Len(ks) -> Targets(ks)] : Ok(t, ks, m, b)}}
                       : t \in {"order", "delta"}, b \in 0..(IF Len(ks) = 4 THEN 1 ELSE 2)}
Maps1 == MapsOf(<<"x">>)
Maps2 == MapsOf(<<"x", "y">>)
Maps3 == MapsOf(<<"x", "x'">>)
Maps4 == MapsOf(<<"x", "x'", "y", "y'">>)
Mark(mp) == FoldLeft(LAMBDA acc, x : (7 * acc + (CASE x.t = "pos" -> 1 + x.i [] x.t = "drop" -> 5 [] x.t = "keep" -> 6 [] OTHER ->
                          CASE x.n = "u" -> 8 [] x.n = "x" -> 9 [] x.n = "y" -> 10 [] OTHER -> 11)) % 9973,
                     IF mp.t = "delta" THEN 3 ELSE 0, mp.m)
Thinned(S, n, s) == {mp \in S : (Mark(mp) + s) % n = 0}

(* what the function receives *)
Bound(mp, ks, fa, fk, ca) ==
  LET tgt(k) == IF mp.t # "none" /\ k \in Rng(mp.ks) THEN mp.m[CHOOSE i \in 1..Len(mp.ks) : mp.ks[i] = k] ELSE Keep
      used(k) == mp.t = "delta" /\ ~Primed(k) /\ Prime(k) \in Rng(ks) /\ tgt(Prime(k)).t # "keep"
      val(k) == IF mp.t = "delta" /\ Primed(k) /\ tgt(k).t # "keep" THEN Val(k) - Val(Plain(k)) ELSE Val(k)
      first == SubSeq(FixedPos, 1, fa) \o SubSeq(CallPos, 1, ca)
      np == Cardinality({k \in Rng(ks) : tgt(k).t = "pos"})
      later == [j \in 1..np |-> val(CHOOSE k \in Rng(ks) : tgt(k) = Pos(Len(first) + j - 1))]
  IN [pos |-> first \o later,
      kw |-> {<<k, Val(k)>> : k \in {k \in Rng(ks) : tgt(k).t = "keep" /\ ~used(k)}}
             \cup {<<tgt(k).n, val(k)>> : k \in {k \in Rng(ks) : tgt(k).t = "name"}}
             \cup (IF fk = 1 THEN {<<FixedKw.k, FixedKw.v>>} ELSE {})]

(***************************** behaviours **********************************)
Nothing == [multi |-> "no", what |-> "", n |-> 0, fa |-> 0, fk |-> 0, mp |-> None]
Init == host = "" /\ obj = Nothing /\ acts = <<>>
LAST == {"ask", "refuse"}
Live == acts # <<>> /\ acts[Len(acts)].op \notin LAST
More == (acts = <<>> \/ Live) /\ Len(acts) < Depth
Maps(s) == {None} \cup Maps1 \cup Thinned(Maps2, IF acts = <<>> THEN First ELSE Thin, s) \cup Thinned(Maps3, IF acts = <<>> THEN First ELSE Thin, s)
           \cup Thinned(Maps4, IF acts = <<>> THEN Wide ELSE 5 * Thin, s)
\* arguments go with functions; positions mapped come after those fixed
Fits(mp, fa) == LET p == \E i \in 1..Len(mp.m) : mp.m[i].t = "pos" IN p => mp.b \in {fa, fa + 1}
Same(o) == acts = <<>> \/ (o.multi # obj.multi \/ o.what # obj.what \/ o.mp # obj.mp)
Define ==
  /\ More
  /\ \E h \in (IF host = "" THEN Hosts ELSE {host}), mu \in {"one", "tuple", "dict"}, w \in {"value", "fun"}, n \in 1..3 :
     \E fa \in 0..2, fk \in 0..1 :
     \E mp \in Maps(fa + 2 * fk + 3 * n + (CASE mu = "one" -> 0 [] mu = "tuple" -> 1 [] OTHER -> 2)) :
       LET o == [multi |-> mu, what |-> w, n |-> n, fa |-> fa, fk |-> fk, mp |-> mp] IN
       /\ (mu = "one" <=> n = 1) /\ (w = "value" => fa = 0 /\ fk = 0 /\ mp = None) /\ Fits(mp, fa)
       /\ (n = 3 \/ fa = 2 => Len(mp.m) < 3) /\ (h = "func" => mu # "dict") /\ (Depth > 1 => fk = 0 /\ n < 3 /\ fa < 2)
       /\ (Len(mp.m) = 4 => fk = 0 /\ (mu # "one" => fa = 0))
       /\ Same(o) /\ host' = h /\ obj' = o
       /\ acts' = Append(acts, [op |-> IF acts = <<>> THEN "define" ELSE "redefine", o |-> o, host |-> h])
\* another mapping, or none
Remap ==
  /\ Live /\ More /\ obj.what = "fun"
  /\ \E mp \in {None} \cup Thinned(Maps2 \cup Maps3, Thin, Mark(obj.mp)) \cup Maps1 :
       /\ mp # obj.mp /\ Fits(mp, obj.fa) /\ (mp.t # "none" => obj.mp.t \in {"none", mp.t})
       /\ obj' = [obj EXCEPT !.mp = mp] /\ acts' = Append(acts, [op |-> "remap", mp |-> mp, was |-> obj.mp.t])
  /\ UNCHANGED host
Which == CASE obj.multi = "one" -> {[t |-> "call", i |-> 1]}
           [] obj.multi = "tuple" -> {[t |-> "index", i |-> i] : i \in 1..obj.n} \cup {[t |-> "last", i |-> obj.n]}
           [] OTHER -> {[t |-> "key", i |-> i] : i \in 1..obj.n}
Forms == {"dict", "kw", "split", "array"}
Ask ==
  /\ Live
  /\ \E w \in Which :
       IF obj.what = "value" THEN acts' = Append(acts, [op |-> "ask", w |-> w, form |-> "none", ks |-> <<>>, ca |-> 0, r |-> [value |-> w.i]])
       ELSE LET p == {i \in 1..Len(obj.mp.m) : obj.mp.m[i].t = "pos"}
                lo == IF p = {} THEN 0 ELSE obj.mp.b - obj.fa
                kss == IF obj.mp.t = "none" THEN Given \cup {<<>>} ELSE {ks \in Given : Rng(obj.mp.ks) \subseteq Rng(ks)} IN
            \E ks \in kss, form \in Forms, ca \in 0..2 :
              /\ (p # {} => ca = lo)
              /\ (ca > 0 => form = "kw") /\ (Len(ks) < 2 => form \in {"dict", "kw"})
              /\ (Len(acts) > 1 => form \in {"dict", "kw"} /\ (w.i = 1 \/ form = "kw") /\ (ca > 0 => p # {}) /\ (Len(obj.mp.ks) = 0 \/ Len(ks) = Len(obj.mp.ks)))
              /\ (obj.mp.t # "none" /\ Len(ks) > Len(obj.mp.ks) => form = "dict" \/ ca > 0)
              /\ (\A i \in 1..Len(obj.mp.m) : obj.mp.m[i].t = "name" =>
                     \A k \in Rng(ks) \ Rng(obj.mp.ks) : obj.mp.m[i].n # k)
              /\ acts' = Append(acts, [op |-> "ask", w |-> w, form |-> form, ks |-> ks, ca |-> ca,
                                       r |-> Bound(obj.mp, ks, obj.fa, obj.fk, ca)])
  /\ UNCHANGED <<host, obj>>
\* what cannot be answered; a mapping that is refused leaves the one before
Refuse ==
  /\ Live
  /\ \E why \in {"index", "noindex", "key", "args", "both", "gap", "kind", "lacking", "mixed", "fixedvalue", "twofix"} :
       /\ CASE why = "index" -> obj.multi = "one"
            [] why \in {"noindex", "key"} -> obj.multi # "one"
            [] why = "args" -> obj.what = "value"
            [] why = "both" -> obj.what = "fun" /\ obj.mp.t # "none"
            [] why \in {"gap", "kind"} -> obj.what = "fun"
            [] why = "lacking" -> obj.what = "fun" /\ \E i \in 1..Len(obj.mp.m) : obj.mp.m[i].t \in {"pos", "name"}
            [] OTHER -> Len(acts) = 1 /\ why # "twofix"
       /\ acts' = Append(acts, [op |-> "refuse", why |-> why, o |-> obj])
  /\ UNCHANGED <<host, obj>>
Next == Define \/ Remap \/ Ask \/ Refuse
Spec == Init /\ [][Next]_vars

(****************************** properties *********************************)
Asked == acts # <<>> /\ acts[Len(acts)].op = "ask" /\ "pos" \in DOMAIN acts[Len(acts)].r
\* nothing supplied is lost unless dropped, nothing is received twice, and every value received was supplied
Received == Asked => LET a == acts[Len(acts)]
                         names == {x[1] : x \in a.r.kw}
                         tgt(k) == IF k \in Rng(obj.mp.ks) THEN obj.mp.m[CHOOSE i \in 1..Len(obj.mp.ks) : obj.mp.ks[i] = k] ELSE Keep
                         drops == {k \in Rng(a.ks) : tgt(k).t = "drop"}
                         diffs == {k \in Rng(a.ks) : Primed(k) /\ obj.mp.t = "delta" /\ tgt(k).t # "keep"}
                     IN /\ Cardinality(names) = Cardinality(a.r.kw)
                        /\ Len(a.r.pos) + Cardinality(a.r.kw) = obj.fa + obj.fk + a.ca + Len(a.ks) - Cardinality(drops) - Cardinality(diffs)
\* without a mapping every value goes by its own name
Plainly == Asked /\ obj.mp.t = "none" => LET a == acts[Len(acts)] IN {x[1] : x \in a.r.kw} = Rng(a.ks) \cup (IF obj.fk = 1 THEN {"k"} ELSE {})
EmitEdge == PrintT("@@" \o ToJson([p |-> acts', r |-> <<>>]))
=============================================================================
