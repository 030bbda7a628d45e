------------------------------ MODULE PkstlNet -------------------------------
(***************************************************************************)
(* Several layers and a network in the hands of an attacker.               *)
(*                                                                         *)
(* Handle q has the identity Who[q] and the ephemeral key q.  Every message*)
(* a handle issues stays available for ever and can be delivered to any    *)
(* handle, any number of times (bounded by MaxDel), also to its writer and *)
(* to handles of other sessions.  The attacker has an identity of its own  *)
(* (3) and an ephemeral key (9); it can sign any ephemeral key as its own, *)
(* answer any challenge and, for the sessions it takes part in, seal user  *)
(* messages.                                                               *)
(*                                                                         *)
(* The invariants are the multi-party properties. Where the protocol does  *)
(* not provide them (known_findings.json), the exception is spelled out:   *)
(* the model shows that nothing else escapes.                              *)
(***************************************************************************)
EXTENDS PkstlLayer, TLC, TLCExt, Json

CONSTANTS Who,       \* identity of each handle
          Expect,    \* per handle: expected identity of the peer (0: any)
          Md,        \* 0: minimal layers, 1: complete
          MaxU,      \* at most so many user messages per handle
          MaxDel,    \* the same message is delivered at most so often to the same handle
          Attack,    \* the attacker injects messages of its own
          Cross,     \* messages reach other handles than the intended one
          Emit,      \* "edges", "walks" or "no"
          Avoid,     \* steps left out: into the known findings ("kf"), into failed layers ("fail"), "kf+fail", ""
          Len1       \* length of the emitted walks

N == Len(Who)
H == 1..N
Eve == 3
EveEp == 9

\* values for the configurations
W12 == <<1, 2>>
W121 == <<1, 2, 1>>
W1212 == <<1, 2, 1, 2>>
E00 == <<0, 0>>
E20 == <<2, 0>>
E21 == <<2, 1>>
E01 == <<0, 1>>
E210 == <<2, 1, 0>>
E212 == <<2, 1, 2>>
E002 == <<0, 0, 2>>
E2121 == <<2, 1, 2, 1>>

VARIABLES hs,   \* the handles
          dv,   \* <<message, handle>> -> deliveries so far
          rep,  \* per handle: reported CONNECT and ACK, delivered contents, refusals
          a
vars == <<hs, dv, rep, a>>

\* content identifiers
DC(q) == 100 + q
DA(q) == 200 + q
DU(q, n) == 1000 * q + n

\* messages: <<kind, handle, number>>; attacker: <<kind, subject, 0>>
Issued == UNION { (IF hs[q].lo > 0 THEN { <<"c", q, 0>> } ELSE {}) \cup (IF hs[q].re = 2 THEN { <<"a", q, 0>> } ELSE {})
                  \cup { <<"u", q, n>> : n \in 0..(hs[q].sent - 1) } : q \in H }
\* the attacker: CONNECT with its own key, CONNECT with the key of handle q, ACK for the challenge of handle q,
\* user message sealed for the session of its key with that of handle q
Forged == IF ~Attack THEN {} ELSE { <<"C", 0, 0>> } \cup { <<"C", q, 0>> : q \in H } \cup { <<"A", q, 0>> : q \in H } \cup { <<"U", q, 0>> : q \in H }

View(m) ==
  LET q == m[2] IN
  CASE m[1] = "c" -> ConnectView(q, Who[q], Who[q], DC(q))
    [] m[1] = "a" -> AckView(hs[q].pe, Who[q], DA(q))
    [] m[1] = "u" -> [UserView(hs[q].key, m[3], TRUE, DU(q, m[3])) EXCEPT !.w = 1]
    [] m[1] = "C" -> ConnectView(IF q = 0 THEN EveEp ELSE q, Eve, Eve, 301)
    [] m[1] = "A" -> AckView(q, Eve, 302)
    [] OTHER -> UserView(KeyOf(EveEp, q), 0, TRUE, 303)

Json1(m) ==
  LET q == ToString(m[2]) IN
  CASE m[1] \in {"c", "a"} -> [w |-> m[1] \o q]
    [] m[1] = "u" -> [w |-> "u" \o q \o "_" \o ToString(m[3])]
    [] m[1] = "C" -> [t |-> "C", by |-> Eve, ep |-> IF m[2] = 0 THEN "e9" ELSE "of:" \o q, d |-> 301]
    [] m[1] = "A" -> [t |-> "A", by |-> Eve, ch |-> "of:" \o q, d |-> 302]
    [] OTHER -> [t |-> "U", k |-> <<"e9", "of:" \o q>>, n |-> 0, d |-> 303]

\* whom a message is meant for, when nothing crosses: handles 1 and 2, 3 and 4
Partner(q) == IF q % 2 = 1 THEN q + 1 ELSE q - 1
Meant(m, q) == Cross \/ m[1] \in {"C", "A", "U"} \/ Partner(m[2]) = q

----------------------------------------------------------------------------
R0 == [c |-> <<>>, a |-> <<>>, d |-> <<>>, no |-> FALSE]
Note(q, y) ==
  [rep EXCEPT ![q] = [c |-> @.c \o SelectSeq([j \in 1..Len(y.dn) |-> y.dn[j].v], LAMBDA v : v.ty = TConnect),
                      a |-> @.a \o SelectSeq([j \in 1..Len(y.dn) |-> y.dn[j].v], LAMBDA v : v.ty = TAck),
                      d |-> @.d \o [j \in 1..Len(y.du) |-> y.du[j].d],
                      no |-> @.no \/ y.r # "ok"]]
Do(q, y, op) == hs' = [hs EXCEPT ![q] = y.h] /\ rep' = Note(q, y) /\ a' = op

Deliver == \E m \in Issued \cup Forged, q \in H :
  /\ Meant(m, q)
  /\ LET k == IF <<m, q>> \in DOMAIN dv THEN dv[<<m, q>>] ELSE 0
         y == ReadAny(hs[q], View(m))
     IN /\ k < MaxDel
        /\ dv' = (<<m, q>> :> (k + 1)) @@ dv
        /\ Do(q, y, [op |-> "rd", h |-> ToString(q), m |-> Json1(m)])
Con == \E q \in H : hs[q].st = "N" /\ hs[q].lo = 0 /\ dv' = dv
  /\ Do(q, NegoCall(hs[q], "con"), [op |-> "con", h |-> ToString(q), d |-> DC(q), o |-> "c" \o ToString(q)])
Ack == \E q \in H : hs[q].st = "N" /\ hs[q].re = 1 /\ dv' = dv
  /\ Do(q, NegoCall(hs[q], "ack"), [op |-> "ack", h |-> ToString(q), d |-> DA(q), o |-> "a" \o ToString(q)])
Wr == \E q \in H : hs[q].st = "S" /\ hs[q].sent < MaxU /\ dv' = dv
  /\ Do(q, WriteUser(hs[q]), [op |-> "wr", h |-> ToString(q), d |-> DU(q, hs[q].sent), o |-> "u" \o ToString(q) \o "_" \o ToString(hs[q].sent)])
\* what a user of the minimal layer does after a CONNECT and after an ACK
Tk == \E q \in H : Md = 0 /\ hs[q].st = "N" /\ hs[q].aside # <<>> /\ hs[q].re > 0 /\ dv' = dv
  /\ Do(q, TakeAck(hs[q]), [op |-> "tk", h |-> ToString(q)])
Dr == \E q \in H : Md = 0 /\ hs[q].st = "S" /\ hs[q].stk # <<>> /\ dv' = dv
  /\ Do(q, Drain(hs[q]), [op |-> "dr", h |-> ToString(q)])

Init == /\ hs = [q \in H |-> NewHandle(Md, Who[q], Expect[q], q, 0)]
        /\ dv = <<>> /\ rep = [q \in H |-> R0] /\ a = [op |-> "new"]
Set(x) == {x[j] : j \in 1..Len(x)}
\* the order of reports does not matter to the invariants
ViewS == <<hs, dv, [q \in H |-> <<rep[q].c, Set(rep[q].a), Set(rep[q].d), Len(rep[q].d), rep[q].no>>]>>
ViewE == <<hs, dv>>
Class == [q \in H |-> <<hs[q].st, hs[q].lo, hs[q].re, hs[q].pe, hs[q].pin, IF hs[q].aside = <<>> THEN 0 ELSE hs[q].aside[1].sg, Len(hs[q].stk), hs[q].nx, Count(hs[q].orp), hs[q].sent>>]
EmitEdge == Emit = "edges" => PrintT(ToJson([s |-> TLCFP(ViewE), op |-> a', t |-> TLCFP(<<hs', dv'>>), c |-> Class, d |-> "N"]))

EmitWalk == (Emit = "walks" /\ TLCGet("level") = Len1) => PrintT(ToJson([w |-> [j \in 1..Len(Trace) |-> Trace[j].a]]))

----------------------------------------------------------------------------
Type == \A q \in H : TypeOK(hs[q])
Honest(e) == e \in H
Done(q) == hs[q].st = "S"

\* C01: what a handle reports, and with whom it completes, is what it expects or adopted
InvC01 == \A q \in H : /\ \A j \in 1..Len(rep[q].c) : rep[q].c[j].sg = rep[q].c[1].pk /\ (Expect[q] # 0 => rep[q].c[j].sg = Expect[q])
                       /\ \A j \in 1..Len(rep[q].a) : rep[q].a[j].sg = (IF rep[q].c = <<>> THEN Expect[q] ELSE rep[q].c[1].pk)
                       /\ Done(q) => Len(rep[q].c) = 1
\* C03
InvC03 == \A q \in H : \A j \in 1..Len(rep[q].a) : rep[q].a[j].ch = q
\* an ACK an honest peer issued for the key of q proves that the peer accepted q's CONNECT
InvAgree == \A q \in H : \A j \in 1..Len(rep[q].a) : rep[q].a[j].sg # Eve => \E p \in H : Who[p] = rep[q].a[j].sg /\ hs[p].pe = q
\* C08: delivered once (the contents of the attacker need not be unique)
InvC08 == \A q \in H : \A i, j \in 1..Len(rep[q].d) : (i # j) => rep[q].d[i] # rep[q].d[j] \/ rep[q].d[i] < 1000
\* C12: what is delivered was sealed under the key of the deliverer; a content of the attacker only where it is
\* the peer
WriterOf(d) == d \div 1000
InvC12 == \A q \in H : \A j \in 1..Len(rep[q].d) :
            LET d == rep[q].d[j] IN
            IF d < 1000 THEN EveEp \in {hs[q].key[1], hs[q].key[2]} ELSE hs[WriterOf(d)].key = hs[q].key
\* the known findings, and nothing else, break the rest of C12 and C21:
\* a layer delivers what it wrote itself (KF-C12-reflection)
Reflected(q) == \E j \in 1..Len(rep[q].d) : WriterOf(rep[q].d[j]) = q
\* what handle w wrote is delivered under another identity, because the attacker presented the key of w as its own
\* (KF-C12-misbinding)
Misbound(q) == rep[q].c # <<>> /\ rep[q].c[1].pk = Eve /\ Honest(rep[q].c[1].ep)
               /\ \E j \in 1..Len(rep[q].d) : WriterOf(rep[q].d[j]) = rep[q].c[1].ep
\* completed with the CONNECT of one handle and the ACK of another one of the same identity (KF-C21-stale-connect)
Stale(q) == rep[q].c # <<>> /\ rep[q].a # <<>> /\ Honest(hs[q].pe) /\ hs[hs[q].pe].pe # q
InvC12id == \A q \in H : \A j \in 1..Len(rep[q].d) :
              LET w == WriterOf(rep[q].d[j]) IN
              (w \in H /\ w # q /\ ~Misbound(q)) => Who[w] = rep[q].c[1].pk
\* the secrets of two handles are the same exactly if they have accepted each other's CONNECT
InvC21 == \A p, q \in H : (p # q /\ hs[p].key # NoKey /\ hs[q].key # NoKey) =>
             ((hs[p].pe = q /\ hs[q].pe = p) <=> hs[p].key = hs[q].key)
\* the attacker never knows the secret of a completed negotiation with an honest identity
InvSecret == \A q \in H : (Done(q) /\ rep[q].c[1].pk # Eve) => EveEp \notin {hs[q].key[1], hs[q].key[2]}
\* whoever completed with an honest identity did so with a handle of that identity that holds the same secret, but
\* for a stale CONNECT; and then some handle of the identity did accept its CONNECT
InvC21b == \A q \in H : (Done(q) /\ rep[q].c[1].pk # Eve) =>
             IF ~Stale(q) THEN hs[hs[q].pe].pe = q /\ hs[hs[q].pe].key = hs[q].key
             ELSE \E r \in H : r # hs[q].pe /\ Who[r] = rep[q].c[1].pk /\ hs[r].pe = q
\* reflection and stale connects need messages that reach a handle they were not meant for
InvKF == ~Cross => \A q \in H : ~Reflected(q) /\ ~Stale(q)
NoKF == \A q \in H : ~Reflected(q) /\ ~Stale(q) /\ ~Misbound(q)
NoFail == \A q \in H : hs[q].st # "F"

Next == /\ Con \/ Ack \/ Wr \/ Tk \/ Dr \/ Deliver
        /\ Avoid \in {"kf", "kf+fail"} => NoKF'
        /\ Avoid \in {"fail", "kf+fail"} => NoFail'
Spec == Init /\ [][Next]_vars
\* C05: nothing is refused when honest messages reach whom they are meant for, once
InvC05 == (~Attack /\ ~Cross /\ MaxDel = 1) => \A q \in H : ~rep[q].no
\* .. and when everything has been delivered, everybody has completed and received everything
AllDone ==
  LET quiet == /\ ~Attack
               /\ ~Cross
               /\ MaxDel = 1
               /\ \A q \in H : hs[q].lo > 0 /\ hs[q].re = 2 /\ hs[q].aside = <<>> /\ (hs[q].st = "S" => hs[q].sent = MaxU /\ hs[q].stk = <<>>)
               /\ \A m \in Issued : <<m, Partner(m[2])>> \in DOMAIN dv
      all(q) == /\ Done(q)
                /\ Len(rep[q].c) = 1
                /\ Len(rep[q].a) = 1
                /\ {rep[q].d[j] : j \in 1..Len(rep[q].d)} = {DU(Partner(q), n) : n \in 0..(MaxU - 1)}
  IN quiet => \A q \in H : all(q)
==============================================================================
