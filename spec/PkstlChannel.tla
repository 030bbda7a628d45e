----------------------------- MODULE PkstlChannel -----------------------------
(***************************************************************************)
(* The channel pkstl is there to provide, without the protocol.            *)
(*                                                                         *)
(* Each end opens at most one session, with one other end of an identity it*)
(* accepts, or with the attacker under the attacker's own identity.        *)
(* Sessions are exclusive: whoever opens one with an honest end is the end *)
(* that one opens its session with.  An end writes only once its session is*)
(* open, and is delivered only what the other end of its own session has   *)
(* written, at most once each.                                             *)
(*                                                                         *)
(* PkstlNet refines this (Refines in PkstlChan.tla), but for the exceptions*)
(* spelled out in known_findings.json; and, if the network delivers, the   *)
(* channel is live: every session opens and everything written arrives.    *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets

CONSTANTS Ends,     \* the ends
          Ident,    \* identity of each end
          Wants,    \* identity each end expects (0: any)
          Evil,     \* the attacker's identity
          Say(_, _) \* n-th content of an end

VARIABLES ses,      \* per end: 0, or the other end of its session, or Evil + 1000
          sent,     \* per end: how many messages written
          got       \* per end: the contents delivered

cv == <<ses, sent, got>>
Out == Evil + 1000
Own(q) == {Say(q, n) : n \in 0..(sent[q] - 1)}
Ok(q, p) == LET i == IF p = Out THEN Evil ELSE Ident[p] IN Wants[q] \in {0, i}

CInit == ses = [q \in Ends |-> 0] /\ sent = [q \in Ends |-> 0] /\ got = [q \in Ends |-> {}]

\* one step of one end: it may open its session and be delivered what waited for that, or write
Opens(q) == \/ ses' = ses
            \/ /\ ses[q] = 0
               /\ \E p \in (Ends \ {q}) \cup {Out} :
                    /\ Ok(q, p)
                    /\ p # Out => ses[p] \in {0, q}
                    /\ \A r \in Ends : r # p => ses[r] # q
                    /\ ses' = [ses EXCEPT ![q] = p]
Gets(q) == LET p == ses'[q] IN
           \/ got' = got
           \/ /\ p # 0
              /\ \A r \in Ends \ {q} : got'[r] = got[r]
              /\ got[q] \subseteq got'[q]
              /\ p # Out => got'[q] \subseteq Own(p)
              /\ p = Out => \A r \in Ends : got'[q] \cap Own(r) = {}
Writes(q) == /\ ses[q] # 0
             /\ sent' = [sent EXCEPT ![q] = @ + 1]
             /\ UNCHANGED <<ses, got>>
CNext == \E q \in Ends : Writes(q) \/ (sent' = sent /\ Opens(q) /\ Gets(q))
CSpec == CInit /\ [][CNext]_cv

\* what follows
Excl == \A p, q \in Ends : ses[q] = p => ses[p] \in {0, q}
Conf == \A q \in Ends : ses[q] \in Ends => got[q] \subseteq Own(ses[q])
==============================================================================
