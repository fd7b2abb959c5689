------------------------------- MODULE Chain -------------------------------
(***************************************************************************)
(* Samplers of one stochastic process.  A behaviour declares the process,  *)
(* then creates samplers, draws from them, walks them, resets them and     *)
(* summarises samples, in any order.  The proposed step and the threshold  *)
(* of every draw are the environment's choice; everything else follows.    *)
(***************************************************************************)
EXTENDS ChainOps, TLC, Json
CONSTANTS Cfgs,        \* set of indices into CfgSeq
          MaxSamplers, Stops,   \* stop counts, 0 for a sampler without one
          Ops,         \* subset of {"draw", "walk", "reset", "forget", "summary"}
          Depth,       \* actions after the declaration
          MaxDraws,    \* draws per behaviour
          Wide         \* 1: all steps and thresholds, 0: a few
VARIABLES cfg, samp, log, acts
vars == <<cfg, samp, log, acts>>

C(t, p, r, s) == [tgt |-> t, pr |-> p, rule |-> r, sc |-> s]
CfgSeq == << C("one", "sym", "metropolis", 0), C("one", "sym", "metropolis", 1), C("onez", "sym", "metropolis", 0), C("onez", "sym", "metropolis", 1),
             C("one", "dual", "hastings", 0), C("one", "dual", "hastings", 1), C("one", "dualz", "hastings", 0), C("one", "sym", "hastings", 0),
             C("two", "sym", "metropolis", 0), C("two", "dual", "hastings", 0), C("two", "dual", "hastings", 1), C("indep", "dual", "hastings", 0),
             C("indep", "sym", "metropolis", 1), C("post", "sym", "metropolis", 0), C("post", "dual", "hastings", 0), C("post", "dual", "hastings", 1),
             C("one", "sym", "none", 0), C("two", "dual", "none", 0), C("one", "sym", "gibbs", 0), C("one", "sym", "custom", 0),
             C("onez", "dual", "custom", 0), C("one", "dual", "hastings", 2), C("indep", "dualz", "hastings", 2), C("post", "dual", "hastings", 2),
             C("post", "sym", "custom", 0), C("onez", "dualz", "hastings", 1), C("one", "dual", "metropolis", 0) >>
Two(c) == c.tgt \in {"two", "indep"}
Inits(c) == IF Two(c) THEN {<<0, 0>>, <<2, 1>>} ELSE {<<2>>, <<0>>}
Steps(c) == IF Two(c) THEN (IF Wide = 1 THEN {<<1, 0>>, <<-1, 1>>, <<0, -1>>, <<1, 1>>} ELSE {<<1, 0>>, <<-1, 1>>})
                      ELSE (IF Wide = 1 THEN {<<1>>, <<-1>>, <<2>>, <<0>>} ELSE {<<1>>, <<-2>>})
From(i) == IF samp[i].last = Null THEN samp[i].init ELSE samp[i].last
\* thresholds on either side of the score
Ths(c, last, n) == LET sc == Score(c, last, n) IN
  IF sc = Null THEN {<<1, 2>>} ELSE IF sc = ROne THEN {<<15, 16>>}
  ELSE {RDiv(RAdd(sc, ROne), <<2, 1>>)} \cup (IF sc = RZero THEN {} ELSE {RDiv(sc, <<2, 1>>)})
Possible(c, last, from, n) == /\ Fwd(c.pr, from, n) # RZero
                              /\ (last = Null => Target(c.tgt, n) # RZero)
Live(i) == ~samp[i].fin /\ (samp[i].stop = 0 \/ samp[i].cnt < samp[i].stop)
\* what can be read of the samplers after an action
View(sm) == [i \in 1..Len(sm) |-> [cnt |-> sm[i].cnt, last |-> IF sm[i].last = Null THEN Null ELSE <<At(cfg, sm[i].last)>>]]
Do(a, sm, lg) == samp' = sm /\ log' = lg /\ acts' = Append(acts, [a EXCEPT !.view = View(sm)]) /\ UNCHANGED cfg
Declare == acts = <<>> /\ \E k \in Cfgs : cfg' = CfgSeq[k] /\ acts' = <<[op |-> "process", cfg |-> CfgSeq[k]]>> /\ UNCHANGED <<samp, log>>
Started == acts # <<>> /\ Len(acts) <= Depth
Create == /\ Started /\ Len(samp) < MaxSamplers
          /\ \E st \in Stops, s \in Inits(cfg) :
               /\ (Len(samp) > 0 => s # samp[Len(samp)].init)
               /\ Do([op |-> "create", stop |-> st, init |-> s, view |-> <<>>],
                     Append(samp, [stop |-> st, cnt |-> 0, init |-> s, last |-> Null, fin |-> FALSE]), log)
After(i, n, th) == [samp EXCEPT ![i].cnt = @ + 1, ![i].last = IF Accepted(cfg, @, n, th) THEN n ELSE @]
Draw == /\ Started /\ "draw" \in Ops /\ Len(log) < MaxDraws
        /\ \E i \in 1..Len(samp) : /\ Live(i)
             /\ \E d \in Steps(cfg) : LET n == Add(From(i), d) IN
                  /\ Possible(cfg, samp[i].last, From(i), n)
                  /\ \E th \in Ths(cfg, samp[i].last, n) : LET x == Sample(cfg, samp[i].init, samp[i].last, n, th) IN
                       Do([op |-> "draw", i |-> i, d |-> d, th |-> th, ans |-> x, view |-> <<>>], After(i, n, th), Append(log, x @@ [by |-> i]))
\* drawing from a sampler that has given all its samples gives none, for ever, and clears it
Ended(sm, i) == [sm EXCEPT ![i].fin = TRUE, ![i].cnt = IF sm[i].fin THEN @ ELSE 0, ![i].last = IF sm[i].fin THEN @ ELSE Null]
Stop == /\ Started /\ "draw" \in Ops
        /\ \E i \in 1..Len(samp) : ~Live(i) /\ acts[Len(acts)].op # "stop"
                                   /\ Do([op |-> "stop", i |-> i, view |-> <<>>], Ended(samp, i), log)
\* walking: n draws of the same step and threshold, or (n = 0) all there are
RECURSIVE Run(_, _, _, _, _)
Run(sm, i, n, d, out) ==
  IF n = 0 \/ sm[i].fin \/ (sm[i].stop > 0 /\ sm[i].cnt >= sm[i].stop) THEN [sm |-> sm, out |-> out, left |-> n]
  ELSE LET from == IF sm[i].last = Null THEN sm[i].init ELSE sm[i].last
           to == Add(from, d)
           x == Sample(cfg, sm[i].init, sm[i].last, to, <<1, 2>>)
       IN Run([sm EXCEPT ![i].cnt = @ + 1, ![i].last = IF Accepted(cfg, @, to, <<1, 2>>) THEN to ELSE @], i, n - 1, d, Append(out, x @@ [by |-> i]))
Walk == /\ Started /\ "walk" \in Ops
        /\ \E i \in 1..Len(samp), n \in {0, 1, 2, 4} :
             /\ ~samp[i].fin /\ (n = 0 => samp[i].stop > 0)
             /\ \E d \in {s \in Steps(cfg) : \A j \in 1..Len(s) : s[j] >= 0} :
                LET w == Run(samp, i, IF n = 0 THEN 99 ELSE n, d, <<>>)
                    sm == IF w.left > 0 THEN Ended(w.sm, i) ELSE w.sm IN
                /\ Len(log) + Len(w.out) <= MaxDraws
                /\ \A j \in 1..Len(w.out) : Possible(cfg, IF w.out[j].o = Null THEN Null ELSE w.out[j].o[1].s, w.out[j].q.from, w.out[j].q.to)
                /\ Do([op |-> "walk", i |-> i, n |-> n, d |-> d, ans |-> w.out, view |-> <<>>], sm, log \o w.out)
\* a reset sampler starts again from its initial state, or (forget = 0) only counts again
Reset == /\ Started /\ "reset" \in Ops
         /\ \E i \in 1..Len(samp), f \in {0, 1} : acts[Len(acts)].op \notin {"reset", "create"} /\
              Do([op |-> "reset", i |-> i, forget |-> f, view |-> <<>>],
                 [samp EXCEPT ![i].cnt = 0, ![i].last = IF f = 1 THEN Null ELSE @], log)
\* forgetting all samplers: the next one created is the first again
Forget == /\ Started /\ "forget" \in Ops /\ samp # <<>>
          /\ Do([op |-> "forget", view |-> <<>>], <<>>, log)
\* summaries pool what was not vetoed, in the order given
Counted(q) == SelectSeq(q, LAMBDA x : x.u # "veto")
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
Parts(q, P(_)) == Cat([j \in 1..Len(q) |-> P(q[j])])
One(x) == IF x = Null THEN <<>> ELSE <<x>>
RECURSIVE Rotate(_, _)
Rotate(q, k) == IF k = 0 \/ q = <<>> THEN q ELSE Rotate(Append(Tail(q), Head(q)), k - 1)
Summary(q) == LET k == Counted(q) IN
  [o |-> Parts(k, LAMBDA x : x.o), p |-> Parts(k, LAMBDA x : <<x.p>>), q |-> Parts(k, LAMBDA x : <<x.q>>), r |-> Parts(k, LAMBDA x : x.r),
   s |-> Parts(k, LAMBDA x : One(x.s)), t |-> Parts(k, LAMBDA x : One(x.t)), u |-> IF cfg.rule = "none" THEN <<>> ELSE [j \in 1..Len(k) |-> k[j].u],
   v |-> Parts(k, LAMBDA x : <<x.v>>)]
Summarise == /\ Started /\ "summary" \in Ops /\ log # <<>> /\ acts[Len(acts)].op # "summary"
             /\ \E w \in {"all", "rotated", "tail", "half"} \cup {"by1", "by2"} :
                LET ix == CASE w = "all" -> [j \in 1..Len(log) |-> j]
                            [] w = "rotated" -> Rotate([j \in 1..Len(log) |-> j], 1)
                            [] w = "tail" -> SelectSeq([j \in 1..Len(log) |-> j], LAMBDA j : j > 1)
                            [] w = "half" -> SelectSeq([j \in 1..Len(log) |-> j], LAMBDA j : j % 2 = 1)
                            [] w = "by1" -> SelectSeq([j \in 1..Len(log) |-> j], LAMBDA j : log[j].by = 1)
                            [] OTHER -> SelectSeq([j \in 1..Len(log) |-> j], LAMBDA j : log[j].by = 2)
                IN /\ ix # <<>> /\ (w # "all" => Len(log) > 1) /\ (w \in {"by1", "by2"} => Len(ix) < Len(log))
                   /\ Do([op |-> "summary", which |-> w, ix |-> ix, ans |-> Summary([j \in 1..Len(ix) |-> log[ix[j]]]), view |-> <<>>], samp, log)
Init == cfg = C("none", "none", "none", 0) /\ samp = <<>> /\ log = <<>> /\ acts = <<>>
Next == Declare \/ Create \/ Draw \/ Stop \/ Walk \/ Reset \/ Forget \/ Summarise
Spec == Init /\ [][Next]_vars

(****************************** properties *********************************)
CountOK == \A i \in 1..Len(samp) : samp[i].stop > 0 => samp[i].cnt <= samp[i].stop
\* only the sampler acted on changes
Independent == [][\A i \in 1..Len(samp) : (i <= Len(samp') /\ acts'[Len(acts')].op \in {"draw", "stop", "walk", "reset"} /\ acts'[Len(acts')].i # i)
                     => samp'[i] = samp[i]]_vars
\* a state, once accepted, has positive probability (initial proposals do too); custom rules do as they please
Supported == cfg.rule \in {"metropolis", "hastings"} => \A i \in 1..Len(samp) : samp[i].last # Null => Target(cfg.tgt, samp[i].last) # RZero
\* detailed balance of the declared rule: flow from a to b equals flow from b to a
Flow(a, b) == LET f == Fwd(cfg.pr, a, b) IN IF f = RZero \/ Target(cfg.tgt, a) = RZero THEN RZero
              ELSE RMul(RMul(Target(cfg.tgt, a), f), Score(cfg, a, b))
Balance == cfg.rule = "hastings" /\ Len(acts) = 1 /\ ~Two(cfg) =>
             \A a, b \in 0..3 : Flow(<<a>>, <<b>>) = Flow(<<b>>, <<a>>)
\* the chain's reported state is the proposal or the previous state
Reported == \A j \in 1..Len(log) : log[j].v = log[j].p \/ (log[j].o # Null /\ log[j].v = log[j].o[1])
EmitEdge == PrintT("@@" \o ToJson([p |-> acts', r |-> <<>>]))
=============================================================================
