------------------------------- MODULE Model -------------------------------
(***************************************************************************)
(* Evaluating fields, conditional models and models of models.  A          *)
(* behaviour makes the variables and the objects of one configuration,     *)
(* sets, replaces and withdraws probability functions in any order, for    *)
(* variables, parts and wholes, and calls the objects with whole domains,  *)
(* single values, arrays and values given together, for the conditional,   *)
(* its product over independent observations and the joint.                *)
(***************************************************************************)
EXTENDS Tab, Json
CONSTANTS Cfgs, Logs, Kinds, Salts, Depth, Wide, Asks, Thin
VARIABLES cfg, Nodes, logs, own, set, acts
vars == <<cfg, Nodes, logs, own, set, acts>>

(* a node: a variable, a field, a model of fields l given r (r being the field of node root if there is one), or a
   model of the models kids *)
RV(k) == [what |-> "rv", l |-> <<k>>, r |-> <<>>, root |-> 0, kids |-> <<>>]
RF(s) == [what |-> "rf", l |-> s, r |-> <<>>, root |-> 0, kids |-> <<>>]
SD(l, r) == [what |-> "sd", l |-> l, r |-> r, root |-> 0, kids |-> <<>>]
Given(l, r, n) == [what |-> "sd", l |-> l, r |-> r, root |-> n, kids |-> <<>>]
Of(ks) == [what |-> "of", l |-> <<>>, r |-> <<>>, root |-> 0, kids |-> ks]
Config == <<
  <<RV("a")>>,
  <<RF(<<"a", "b", "c">>)>>,
  <<RF(<<"c", "a">>)>>,
  <<SD(<<"b", "a">>, <<>>)>>,
  <<SD(<<"a">>, <<"b">>)>>,
  <<SD(<<"a", "b">>, <<"c">>)>>,
  <<RF(<<"c", "a">>), Given(<<"b">>, <<"c", "a">>, 1)>>,
  <<SD(<<"a">>, <<"b">>), SD(<<"b">>, <<"c">>), Of(<<1, 2>>)>>,
  <<SD(<<"a">>, <<"b">>), SD(<<"b">>, <<"c">>), Of(<<2, 1>>)>>,
  <<SD(<<"c">>, <<"a">>), SD(<<"c">>, <<"b">>), Of(<<1, 2>>)>>,
  <<SD(<<"b">>, <<"c">>), SD(<<"a">>, <<"c">>), Of(<<1, 2>>)>>,
  <<SD(<<"a">>, <<"b">>), SD(<<"c">>, <<"e">>), Of(<<1, 2>>)>>,
  <<SD(<<"a">>, <<"b">>), SD(<<"b">>, <<"c">>), SD(<<"c">>, <<"e">>), Of(<<1, 2, 3>>)>>,
  <<SD(<<"a">>, <<"b">>), SD(<<"b">>, <<"c">>), Of(<<1, 2>>), SD(<<"c">>, <<"e">>), Of(<<3, 4>>)>>,
  <<SD(<<"a">>, <<"c", "b">>), SD(<<"b", "c">>, <<"e">>), Of(<<1, 2>>)>>,
  <<SD(<<"a">>, <<"b", "c">>), SD(<<"b">>, <<"e">>), SD(<<"c">>, <<"e">>), Of(<<1, 2, 3>>)>>,
  <<SD(<<"a">>, <<"b">>), SD(<<"b">>, <<>>), Of(<<1, 2>>)>>,
  <<SD(<<"c">>, <<"a">>), Of(<<1>>)>>
>>
Dom(k) == IF k = "c" THEN <<0, 1, 2>> ELSE <<0, 1>>
Prime(k) == CASE k = "a" -> 1 [] k = "b" -> 3 [] k = "c" -> 4 [] k = "e" -> 5
\* a variable's own probabilities, as first declared and as declared later
Own(k, o, v) == IF k = "c" THEN Norm(IF o = 0 THEN 1 + v ELSE 3 - v, 6)
                ELSE LET p == CASE k = "a" -> IF o = 0 THEN <<1, 4>> ELSE <<1, 2>>
                                [] k = "b" -> IF o = 0 THEN <<2, 5>> ELSE <<9, 10>>
                                [] k = "e" -> IF o = 0 THEN <<3, 8>> ELSE <<1, 8>>
                     IN IF v = 1 THEN p ELSE RSub(ROne, p)

RECURSIVE Ordered(_, _), Edges(_, _), Cond(_, _, _, _, _)
Ordered(cf, n) == IF cf[n].kids = <<>> THEN cf[n].l \o cf[n].r
                  ELSE LET lf == [i \in 1..Len(cf[n].kids) |->
                                   LET m == cf[n].kids[i] e == Edges(cf, m) IN SelectSeq(Ordered(cf, m), LAMBDA k : ~\E x \in e : x[1] = k)]
                       IN Dedup(CatSeqs(lf) \o CatSeqs([i \in 1..Len(cf[n].kids) |-> Ordered(cf, cf[n].kids[i])]))
Edges(cf, n) == IF cf[n].kids = <<>> THEN {<<r, l>> : r \in Rng(cf[n].r), l \in Rng(cf[n].l)}
                ELSE UNION {Edges(cf, cf[n].kids[i]) : i \in 1..Len(cf[n].kids)}
Rooted(cf, n) == IF cf[n].kids = <<>> THEN cf[n].r
                 ELSE LET e == Edges(cf, n) IN SelectSeq(Ordered(cf, n), LAMBDA k : (\E x \in e : x[1] = k) /\ ~\E x \in e : x[2] = k)
\* what is read off the edges, once: members in order, those described, those conditioning
Full(cf) == [n \in 1..Len(cf) |-> LET ks == Ordered(cf, n) rs == Rooted(cf, n)
              IN [what |-> cf[n].what, l |-> cf[n].l, r |-> cf[n].r, root |-> cf[n].root, kids |-> cf[n].kids,
                  ks |-> ks, rs |-> rs, ds |-> Without(ks, Rng(rs)),
                  tell |-> SelectSeq(cf[n].kids, LAMBDA m : ~(Rng(Without(Ordered(cf, m), Rng(Rooted(cf, m)))) \subseteq Rng(rs)))]]
Members(cf, n) == cf[n].ks
Roots(cf, n) == cf[n].rs
Described(cf, n) == cf[n].ds

\* a probability function for variables ls given the others: normalised over all values of ls
RECURSIVE SumKeys(_, _)
SumKeys(ks, asg) == IF ks = <<>> THEN 0 ELSE Prime(Head(ks)) * (asg[Head(ks)] + 1) + SumKeys(Tail(ks), asg)
Weight(ks, asg, salt) == 1 + ((3 * SumKeys(ks, asg) + 2 * salt) % 7)
Combos(ks) == [j \in 1..ProdInt([i \in 1..Len(ks) |-> Len(Dom(ks[i]))]) |->
                 LET x == Unrav([i \in 1..Len(ks) |-> Len(Dom(ks[i]))], j) IN [k \in Rng(ks) |-> Dom(k)[x[PosIn(ks, k)]]]]
Over(asg, c) == [k \in DOMAIN asg |-> IF k \in DOMAIN c THEN c[k] ELSE asg[k]]
Fun(ls, ks, asg, salt) ==
  LET cs == Combos(ls)
      tot == FoldSeq(LAMBDA c, acc : acc + Weight(ks, Over(asg, c), salt), 0, cs)
  IN Norm(Weight(ks, asg, salt), tot)
\* what a node gives an assignment of its members
Cond(cf, n, st, ow, asg) ==
  LET ls == Described(cf, n)  ks == Members(cf, n) IN
  IF st[n].kind = "const" THEN <<1, Len(Combos(ls))>>
  ELSE IF st[n].kind # "none" THEN Fun(ls, ks, asg, st[n].salt)
  ELSE IF cf[n].kids # <<>> THEN
     \* models that are not conditional do not change the conditional
     RProdSeq([i \in 1..Len(cf[n].tell) |-> Cond(cf, cf[n].tell[i], st, ow, asg)])
  ELSE RProdSeq([i \in 1..Len(ls) |-> Own(ls[i], ow[ls[i]], asg[ls[i]])])
RootP(cf, n, st, ow, asg) ==
  IF cf[n].root # 0 THEN Cond(cf, cf[n].root, st, ow, asg)
  ELSE LET rs == Roots(cf, n) IN RProdSeq([i \in 1..Len(rs) |-> Own(rs[i], ow[rs[i]], asg[rs[i]])])

(* requests: for every member, in order, [t |-> "all" | "s" | "a", v |-> values]; grp: members given together *)
ValsOf(k, o) == IF o.t = "all" THEN Dom(k) ELSE o.v
Axes(ks, req) ==
  LET at(i) == LET k == ks[i] IN
        IF k \notin req.grp THEN (IF req.opt[i].t = "s" THEN <<>>
             ELSE <<[ks |-> <<k>>, vs |-> [j \in 1..Len(ValsOf(k, req.opt[i])) |-> <<ValsOf(k, req.opt[i])[j]>>]]>>)
        ELSE IF \E j \in 1..(i - 1) : ks[j] \in req.grp THEN <<>>
        ELSE LET ms == SelectSeq([j \in 1..Len(ks) |-> j], LAMBDA j : ks[j] \in req.grp /\ req.opt[j].t # "s") IN
             IF ms = <<>> THEN <<>>
             ELSE <<[ks |-> [m \in 1..Len(ms) |-> ks[ms[m]]],
                     vs |-> [j \in 1..Len(ValsOf(ks[ms[1]], req.opt[ms[1]])) |-> [m \in 1..Len(ms) |-> ValsOf(ks[ms[m]], req.opt[ms[m]])[j]]]]>>
  IN CatSeqs([i \in 1..Len(ks) |-> at(i)])
Fixed(ks, req) == LET js == SelectSeq([i \in 1..Len(ks) |-> i], LAMBDA i : req.opt[i].t = "s")
                  IN [i \in 1..Len(js) |-> [k |-> ks[js[i]], v |-> req.opt[js[i]].v[1], u |-> 0]]
Table(cf, n, st, ow, req, f(_)) ==
  LET ks == Members(cf, n)
      p == [ax |-> Axes(ks, req), sc |-> Fixed(ks, req), mg |-> Described(cf, n), cd |-> Roots(cf, n), ps |-> [lg |-> FALSE, c |-> 0], t |-> <<>>]
      d == Dims(p)
      idx == AllIdx(d)
  IN [p EXCEPT !.t = [j \in 1..Len(idx) |-> f(Asg(p, idx[j]))]]
Answer(cf, n, st, ow, req, iid, joint) ==
  LET c == Table(cf, n, st, ow, req, LAMBDA asg : Cond(cf, n, st, ow, asg))
      t == IF iid = {} THEN c ELSE Collapse(c, iid, c.ps)
  IN IF ~joint THEN t
     ELSE IF Roots(cf, n) = <<>> THEN t
     ELSE LET r == Table(cf, n, st, ow, req, LAMBDA asg : RootP(cf, n, st, ow, asg))
              \* one value of the roots' probability for every place of what remains
              keep == SelectSeq([i \in 1..Len(c.ax) |-> i], LAMBDA i : ~(AxKeys(c.ax[i]) \subseteq iid))
              d == Dims(t)  idx == AllIdx(d)
              full(x) == [i \in 1..Len(c.ax) |-> IF i \in Rng(keep) THEN x[PosIn(keep, i)] ELSE 1]
          IN [t EXCEPT !.mg = t.mg \o t.cd, !.cd = <<>>,
                       !.t = [j \in 1..Len(t.t) |-> RMul(t.t[j], r.t[Rav(Dims(c), full(idx[j]))])]]

(***************************** what is asked *******************************)
Whole(ks) == [opt |-> [i \in 1..Len(ks) |-> [t |-> "all", v |-> <<>>]], grp |-> {}]
Opts(k, wide) ==
  {[t |-> "all", v |-> <<>>], [t |-> "s", v |-> <<1>>], [t |-> "a", v |-> IF k = "c" THEN <<2, 0>> ELSE <<1, 0>>]}
  \cup (IF wide THEN {[t |-> "s", v |-> <<0>>], [t |-> "a", v |-> <<1>>]} ELSE {})
Singly(ks, wide) == {r \in [1..Len(ks) -> UNION {Opts(ks[i], wide) : i \in 1..Len(ks)}] : \A i \in 1..Len(ks) : r[i] \in Opts(ks[i], wide)}
\* together: the same number of values, or one value
Long(k, o) == Len(ValsOf(k, o))
Grouped(ks) ==
  LET two == {g \in SUBSET Rng(ks) : Cardinality(g) >= 2 /\ (Len(ks) > 3 => ks[1] \in g /\ Cardinality(g) < 4)}
      opts(k) == {[t |-> "s", v |-> <<1>>], [t |-> "all", v |-> <<>>],
                  [t |-> "a", v |-> <<1, 1, 0>>], [t |-> "a", v |-> IF k = "c" THEN <<2, 1, 2>> ELSE <<0, 1, 1>>]}
      lone == {[t |-> "s", v |-> <<0>>], [t |-> "all", v |-> <<>>]}
  IN UNION {{[opt |-> r, grp |-> g] : r \in
       {r \in [1..Len(ks) -> UNION {opts(ks[i]) \cup lone : i \in 1..Len(ks)}] :
          /\ \A i \in 1..Len(ks) : r[i] \in (IF ks[i] \in g THEN opts(ks[i]) ELSE lone)
          /\ \A i, j \in 1..Len(ks) : (ks[i] \in g /\ ks[j] \in g /\ r[i].t # "s" /\ r[j].t # "s") => Long(ks[i], r[i]) = Long(ks[j], r[j])}} : g \in two}
Requests(ks, wide) == {[opt |-> r, grp |-> {}] : r \in Singly(ks, wide /\ Len(ks) < 4)} \cup (IF wide THEN Grouped(ks) ELSE {})
\* arrays of probabilities stand for whole domains only
RECURSIVE HasArr(_, _, _)
HasArr(cf, n, st) == st[n].kind = "arr" \/ (st[n].kind = "none" /\ \E i \in 1..Len(cf[n].kids) : HasArr(cf, cf[n].kids[i], st))
IsWhole(req) == req.grp = {} /\ \A i \in 1..Len(req.opt) : req.opt[i].t = "all"
\* observations: all or some described variables that have an axis of their own or share it among them
\* (as many as the exact arithmetic of TLC has room for)
RECURSIVE Bits(_)
Bits(x) == IF x = 0 THEN 0 ELSE 1 + Bits(x \div 2)
IidSets(cf, n, req) ==
  LET p == Table(cf, n, set, own, req, LAMBDA asg : Cond(cf, n, set, own, asg))
      den == FoldSeq(LAMBDA x, acc : IF x[2] > acc THEN x[2] ELSE acc, 1, p.t)
      cells(K) == ProdInt([i \in 1..Len(p.ax) |-> IF AxKeys(p.ax[i]) \subseteq K THEN Len(p.ax[i].vs) ELSE 1])
      ok(K) == K # {} /\ CollapseOk(p, K) /\ cells(K) * Bits(den) <= 22
  IN {K \in {Rng(Described(cf, n))} \cup {{k} : k \in Rng(Described(cf, n))} : ok(K)}

(***************************** behaviours **********************************)
AllKeys == {"a", "b", "c", "e"}
Init == cfg = 0 /\ Nodes = <<>> /\ logs = {} /\ own = [k \in AllKeys |-> 0] /\ set = <<>> /\ acts = <<>>
Live == acts # <<>> /\ acts[Len(acts)].op \notin {"ask", "refuse"}
Build == /\ acts = <<>>
         /\ \E c \in Cfgs, L \in Logs :
              /\ cfg' = c /\ logs' = L /\ Nodes' = Full(Config[c])
              /\ set' = [i \in 1..Len(Config[c]) |-> [kind |-> "none", salt |-> 0]]
              /\ acts' = <<[op |-> "build", cfg |-> c, logs |-> L,
                            nodes |-> Nodes']>>
         /\ UNCHANGED own
More == Live /\ Len(acts) <= Depth
Table0(cf, n, kind, salt) ==
  LET st == [i \in 1..Len(cf) |-> [kind |-> IF kind = "const" THEN "const" ELSE "fun", salt |-> salt]]
  IN Table(cf, n, st, own, Whole(Members(cf, n)), LAMBDA asg : Cond(cf, n, st, own, asg)).t
Set == /\ More
       /\ \E n \in 1..Len(Nodes), k \in Kinds, s \in Salts :
            /\ Nodes[n].what # "rv" /\ (k = "const" => s = 0)
            /\ set[n] # [kind |-> k, salt |-> s]
            /\ set' = [set EXCEPT ![n] = [kind |-> k, salt |-> s]]
            /\ acts' = Append(acts, [op |-> "set", n |-> n, kind |-> k, t |-> Table0(Nodes, n, k, s), ks |-> Members(Nodes, n)])
       /\ UNCHANGED <<cfg, Nodes, logs, own>>
Withdraw == /\ More
            /\ \E n \in 1..Len(Nodes) : /\ set[n].kind # "none"
                                        /\ set' = [set EXCEPT ![n] = [kind |-> "none", salt |-> 0]]
                                        /\ acts' = Append(acts, [op |-> "withdraw", n |-> n])
            /\ UNCHANGED <<cfg, Nodes, logs, own>>
Redeclare == /\ More
             /\ \E k \in Rng(Members(Nodes, Len(Nodes))) : /\ own[k] = 0 /\ own' = [own EXCEPT ![k] = 1]
                  /\ acts' = Append(acts, [op |-> "own", k |-> k, t |-> [i \in 1..Len(Dom(k)) |-> Own(k, 1, Dom(k)[i])]])
             /\ UNCHANGED <<cfg, Nodes, logs, set>>
CallOf(op, n, req, iid, joint, form) ==
  [op |-> op, n |-> n, ks |-> Members(Nodes, n), req |-> req, iid |-> iid, joint |-> joint, form |-> form,
   r |-> Answer(Nodes, n, set, own, req, iid, joint)]
Touch == /\ More /\ acts[Len(acts)].op # "touch"
         /\ \E n \in 1..Len(Nodes) : /\ Nodes[n].what # "rv"
              /\ acts' = Append(acts, CallOf("touch", n, Whole(Members(Nodes, n)), {}, FALSE, 0))
         /\ UNCHANGED <<cfg, Nodes, logs, own, set>>
\* the first declaration is asked everything, what follows is asked a selection
Broad == Len(acts) <= Wide
Top == Len(Nodes)
\* one request in Thin is asked, another selection for every history
KindNo(k) == CASE k = "fun" -> 1 [] k = "extra" -> 2 [] k = "dims" -> 3 [] k = "log" -> 4 [] k = "coef" -> 5 [] k = "arr" -> 6 [] k = "const" -> 7 [] OTHER -> 0
Mark(req, joint) ==
  LET h == FoldSeq(LAMBDA i, acc : (5 * acc + 3 * Len(req.opt[i].v) + (IF req.opt[i].t = "all" THEN 1 ELSE 2 * req.opt[i].v[1])
                                     + (IF \E k \in req.grp : PosIn(Nodes[Top].ks, k) = i THEN 7 ELSE 0)) % 9973, IF joint THEN 4 ELSE 0, [i \in 1..Len(req.opt) |-> i])
      s == FoldSeq(LAMBDA x, acc : (3 * acc + KindNo(x.kind) + x.salt) % 9973, cfg, set)
      o == Cardinality({k \in AllKeys : own[k] # 0}) + Cardinality(logs) + Len(acts)
  IN h + 2 * s + 5 * o
Thinned(req, joint) == Thin = 1 \/ IsWhole(req) \/ Mark(req, joint) % Thin = 0
IsSd(n) == Nodes[n].what \in {"sd", "of"}
Ask == /\ Live /\ "ask" \in Asks
       /\ \E n \in (IF Broad THEN {Top} ELSE 1..Top) :
          \E req \in Requests(Members(Nodes, n), Broad), joint \in {TRUE, FALSE} :
          \E iid \in {{}} \cup (IF Nodes[n].what # "rv" /\ Thinned(req, joint) THEN IidSets(Nodes, n, req) ELSE {}) :
            /\ (Nodes[n].what = "rv" => req.grp = {})
            /\ Thinned(req, joint)
            /\ (joint => IsSd(n)) /\ (~Broad /\ iid # {} => iid = Rng(Described(Nodes, n)))
            /\ (HasArr(Nodes, n, set) => IsWhole(req))
            /\ ~(joint /\ Nodes[n].root # 0 /\ HasArr(Nodes, Nodes[n].root, set) /\ ~IsWhole(req))
            /\ acts' = Append(acts, CallOf("ask", n, req, iid, joint, (Len(acts) + Cardinality(iid) + Cardinality(req.grp)
                                 + FoldSeq(LAMBDA o, acc : 2 * acc + Len(o.v), 0, req.opt)) % 6))
       /\ UNCHANGED <<cfg, Nodes, logs, own, set>>
Refuse == /\ Live /\ "refuse" \in Asks
          /\ \E why \in {"unknown", "count", "lengths", "partial"}, n \in 1..Len(Nodes) :
               /\ (why = "partial") => (set[n].kind = "arr" /\ Len(Members(Nodes, n)) > 1)
               /\ (why \in {"count", "lengths"}) => (Len(Members(Nodes, n)) > 1 /\ ~HasArr(Nodes, n, set))
               /\ (Nodes[n].what = "rv" => why = "unknown")
               /\ acts' = Append(acts, [op |-> "refuse", why |-> why, n |-> n, ks |-> Members(Nodes, n)])
          /\ UNCHANGED <<cfg, Nodes, logs, own, set>>
Next == Build \/ Set \/ Withdraw \/ Redeclare \/ Touch \/ Ask \/ Refuse
Spec == Init /\ [][Next]_vars

(****************************** properties *********************************)
\* described once: no variable is the dependent of two parts
RECURSIVE Once(_, _, _)
Once(cf, n, st) == st[n].kind # "none" \/ cf[n].kids = <<>> \/
   (/\ \A i, j \in 1..Len(cf[n].kids) : i # j => Rng(Described(cf, cf[n].kids[i])) \cap Rng(Described(cf, cf[n].kids[j])) = {}
    /\ \A i \in 1..Len(cf[n].kids) : Once(cf, cf[n].kids[i], st))
\* conditionals are normalised for every value of the conditions, joints altogether
Normalised == (Live /\ acts[Len(acts)].op # "touch") => \A n \in 1..Len(Nodes) : Once(Nodes, n, set) =>
   LET w == Whole(Members(Nodes, n))
       c == Answer(Nodes, n, set, own, w, {}, FALSE)
       m == MassPerCond(c)
   IN (\A x \in DOMAIN m : m[x] = ROne) /\ Total(Answer(Nodes, n, set, own, w, {}, TRUE)) = ROne
\* the joint divided by the probability of the conditions is the conditional
Bayes == (Live /\ acts[Len(acts)].op # "touch") => \A n \in 1..Len(Nodes) : (Once(Nodes, n, set) /\ Roots(Nodes, n) # <<>>) =>
   LET w == Whole(Members(Nodes, n))
       c == Answer(Nodes, n, set, own, w, {}, FALSE)
       j == Answer(Nodes, n, set, own, w, {}, TRUE)
   IN CondOk(j, Rng(Roots(Nodes, n))) /\ Conditionalise(j, Rng(Roots(Nodes, n))).t = c.t
\* asking for less returns the entries of the whole
Entries == (acts # <<>> /\ acts[Len(acts)].op = "ask" /\ acts[Len(acts)].iid = {}) =>
   LET a == acts[Len(acts)]
       w == Answer(Nodes, a.n, set, own, Whole(a.ks), {}, a.joint)
       M == Meaning(w)
   IN \A x \in Meaning(a.r) : x \in M
EmitEdge == PrintT("@@" \o ToJson([p |-> acts', r |-> <<>>]))
=============================================================================
