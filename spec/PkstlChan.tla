------------------------------ MODULE PkstlChan -------------------------------
(***************************************************************************)
(* PkstlNet provides PkstlChannel.                                         *)
(***************************************************************************)
EXTENDS PkstlNet

peerOf(q) == IF hs[q].st # "S" THEN 0 ELSE IF rep[q].c[1].pk = Eve THEN Eve + 1000 ELSE hs[q].pe
C == INSTANCE PkstlChannel WITH
       Ends <- H, Ident <- Who, Wants <- Expect, Evil <- Eve, Say <- DU,
       ses <- [q \in H |-> peerOf(q)],
       sent <- [q \in H |-> hs[q].sent],
       got <- [q \in H |-> Set(rep[q].d)]
Refines == C!CSpec

\* The known findings are where it does not: a reflected message, a CONNECT of another handle of the same identity
\* (both left out by Avoid), and an attacker that presents the key of an honest handle as its own: that handle's peer
\* then has a session with an end that believes to speak with the attacker (KF-C12-misbinding).
Shared(q) == rep[q].c # <<>> /\ rep[q].c[1].pk = Eve /\ Honest(rep[q].c[1].ep)
ChanSpec == Init /\ [][Next /\ \A q \in H : ~Shared(q)']_vars

\* the network delivers everything, users answer and read on
Fair == /\ WF_vars(Con) /\ WF_vars(Ack) /\ WF_vars(Wr) /\ WF_vars(Tk) /\ WF_vars(Dr)
        /\ WF_vars(Deliver)
LiveSpec == Spec /\ Fair
Arrived == \A q \in H : /\ Done(q)
                        /\ Set(rep[q].d) = {DU(Partner(q), n) : n \in 0..(MaxU - 1)}
                        /\ peerOf(q) = Partner(q)
Live == <>[]Arrived
==============================================================================
