----------------------------- MODULE PkstlWindow ------------------------------
(***************************************************************************)
(* PkstlLayer keeps the numbers a layer has received, and the messages it  *)
(* holds, as runs, so that traces with tens of thousands of messages can   *)
(* be followed.  This module states the same with plain sets and sequences *)
(* and one message at a time - the form in which C08, C09 and C10 are      *)
(* worded - and checks that every call has the same outcome in both.       *)
(***************************************************************************)
EXTENDS PkstlLayer, TLC, FiniteSets

CONSTANTS MaxN,   \* numbers 0..MaxN
          Steps,  \* strides of bulk runs
          MaxLen  \* length of a bulk run

VARIABLES h,      \* PkstlLayer
          R, held, st,     \* reference: numbers received, numbers held in order of arrival, state of the layer
          o, ro   \* outcomes of the last call

vars == <<h, R, held, st, o, ro>>
K == KeyOf(1, 2)

----------------------------------------------------------------------------
(* Reference *)

Missing(S) == CHOOSE n \in 0..(MaxN + MaxLen * 4 + 1) : n \notin S /\ \A m \in 0..(n - 1) : m \in S
Ahead(S) == {n \in S : n > Missing(S)}

\* one message: [S: received, t: state, r: outcome]
One(S, t, n) ==
  IF n \in S THEN [S |-> S, t |-> t, r |-> "InvalidNonce"]
  ELSE IF t = "F" THEN [S |-> S, t |-> t, r |-> "ConnectionHadFail"]
  ELSE IF n # Missing(S) /\ Cardinality(Ahead(S)) >= MaxOrphans THEN [S |-> S, t |-> "F", r |-> "TooManyUnorderedMsgs"]
  ELSE [S |-> S \cup {n}, t |-> t, r |-> "del"]
RECURSIVE All(_, _, _, _)
All(S, t, ns, out) ==
  IF ns = <<>> THEN [S |-> S, t |-> t, out |-> out]
  ELSE LET x == One(S, t, ns[1]) IN All(x.S, x.t, Tail(ns), Append(out, x.r))
\* one message before the peer's ACK
RECURSIVE Hold(_, _, _, _)
Hold(hs, t, ns, out) ==
  IF ns = <<>> THEN [hs |-> hs, t |-> t, out |-> out]
  ELSE IF t = "F" THEN Hold(hs, t, Tail(ns), Append(out, "ConnectionHadFail"))
  ELSE IF Len(hs) >= MaxOrphans THEN Hold(hs, "F", Tail(ns), Append(out, "TooManyUnorderedMsgs"))
  ELSE Hold(Append(hs, ns[1]), t, Tail(ns), Append(out, "held"))
\* what is held is delivered in order of arrival, what arrived twice once
RECURSIVE Release(_, _, _, _)
Release(S, t, ns, out) ==
  IF ns = <<>> THEN [S |-> S, t |-> t, out |-> out, r |-> "ok"]
  ELSE LET x == One(S, t, ns[1]) IN
    IF x.r = "del" THEN Release(x.S, x.t, Tail(ns), Append(out, ns[1]))
    ELSE IF x.r = "InvalidNonce" THEN Release(S, t, Tail(ns), out)
    ELSE [S |-> x.S, t |-> x.t, out |-> <<>>, r |-> x.r]

Numbers(lo, hi, s) == [j \in 1..((hi - lo) \div s + 1) |-> lo + (j - 1) * s]

----------------------------------------------------------------------------
RECURSIVE Expand(_, _)
Expand(x, j) == IF j > Len(x) THEN <<>> ELSE [q \in 1..x[j].c |-> x[j].s] \o Expand(x, j + 1)
RECURSIVE Flat(_, _)
Flat(du, j) == IF j > Len(du) THEN <<>> ELSE Numbers(du[j].lo, du[j].hi, du[j].st) \o Flat(du, j + 1)
Early == h.st = "N"
Run(lo, hi, s) == [lo |-> lo, hi |-> hi, st |-> s, d |-> 0, hs |-> TRUE, bl |-> 1, fm |-> -1, tv |-> -1]

\* one message
Single == \E n \in 0..MaxN :
  LET y == ReadMin(h, UserView(K, n, TRUE, n)) IN
  /\ h' = y.h
  /\ o' = IF y.r = "ok" THEN (IF y.du = <<>> THEN <<"held">> ELSE <<"del">>) ELSE <<y.r>>
  /\ IF Early THEN LET x == Hold(held, st, <<n>>, <<>>) IN held' = x.hs /\ st' = x.t /\ ro' = x.out /\ R' = R
     ELSE LET x == All(R, st, <<n>>, <<>>) IN R' = x.S /\ st' = x.t /\ ro' = x.out /\ held' = held
\* many messages
Many == \E lo \in 0..MaxN, s \in Steps, k \in 2..MaxLen :
  LET e == Run(lo, lo + (k - 1) * s, s)
      y == Bulk(h, K, e)
  IN /\ e.hi <= MaxN
     /\ IF Early THEN s = 1 /\ \A j \in 1..Len(h.stk) : h.stk[j].lo > e.hi \/ h.stk[j].hi < e.lo
        ELSE BulkDefined(h, [lo |-> e.lo, hi |-> e.hi, st |-> s])
     /\ h' = y.h /\ o' = Expand(y.outs, 1)
     /\ LET ns == Numbers(e.lo, e.hi, s) IN
        IF Early THEN LET x == Hold(held, st, ns, <<>>) IN held' = x.hs /\ st' = x.t /\ ro' = x.out /\ R' = R
        ELSE LET x == All(R, st, ns, <<>>) IN R' = x.S /\ st' = x.t /\ ro' = x.out /\ held' = held
\* the peer's ACK has come: the held messages are released
Finish == /\ Early /\ LET y == Drain([h EXCEPT !.st = "S", !.lo = 2])
                           x == Release({}, "S", held, <<>>)
                       IN /\ h' = y.h /\ o' = (IF y.r = "ok" THEN Flat(y.du, 1) ELSE <<y.r>>)
                          /\ ro' = (IF x.r = "ok" THEN x.out ELSE <<x.r>>)
                          /\ R' = x.S /\ st' = x.t /\ held' = <<>>

H0 == [NewHandle(0, 1, 2, 1, 0) EXCEPT !.lo = 1, !.re = 2, !.pe = 2, !.key = K]
Init == h = H0 /\ R = {} /\ held = <<>> /\ st = "S" /\ o = <<>> /\ ro = <<>>
Next == Single \/ Many \/ Finish
Spec == Init /\ [][Next]_vars
Sane == (st = "F") => (h.st = "F")

----------------------------------------------------------------------------
SameOutcome == o = ro
SameState == /\ (h.st = "F") = (st = "F")
             /\ h.st = "S" => /\ h.nx = Missing(R)
                              /\ \A n \in 0..(MaxN + 1) : Has(h.orp, n) <=> n \in Ahead(R)
                              /\ Count(h.orp) = Cardinality(Ahead(R))
             /\ h.st = "N" => Flat(h.stk, 1) = held
Window == TypeOK(h)
Bounded == Cardinality(Ahead(R)) <= MaxOrphans /\ Len(held) <= MaxOrphans
==============================================================================
