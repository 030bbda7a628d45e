------------------------------ MODULE PkstlOne -------------------------------
(***************************************************************************)
(* One layer against an arbitrary environment: every public call in every  *)
(* reachable state, every kind of message a peer, a stranger or an         *)
(* attacker can send.  The invariants and action properties below are the  *)
(* single-layer part of the listed properties, over the specification; the *)
(* reachable edges are emitted and replayed on the real crate.             *)
(*                                                                         *)
(* Identities: 1 own, 2 the peer, 3 a stranger.  Ephemeral keys: 1 own,    *)
(* 2 and 3 (e1, e2) of the reference peer, 100001 of low order.            *)
(***************************************************************************)
EXTENDS PkstlLayer, TLC, TLCExt, Json

CONSTANTS MaxN,      \* user messages are numbered 0..MaxN
          MaxSent,   \* at most so many user messages are written
          Modes,     \* {0}, {1} or {0, 1}
          Pins,      \* subset of {0, 2}
          Focus,     \* "all"; "nego": up to the end of the negotiation; "early": user messages that
                     \* overtake the ACK, honest negotiation; "window": from a negotiated layer on
          MaxStk,    \* at most so many user messages are held
          Emit       \* print the edges

Own == 1
EpOf(s) == CASE s = "e1" -> 2 [] s = "e2" -> 3 [] s = "of:A" -> Own [] OTHER -> 100001

VARIABLES h,      \* the layer
          g,      \* history: what was issued, accepted and delivered
          a       \* the last operation (for the emission)
vars == <<h, g, a>>

G0 == [oC |-> 0, oA |-> 0, rC |-> <<>>, rA |-> <<>>, del |-> <<>>, sent |-> 0, dead |-> FALSE, cl |-> 0]

\* ---- message menu: [m: how the harness builds it, v: what it means]
MsgC(by, pk, ep, sig, d) ==
  [m |-> [t |-> "C", by |-> by, pk |-> pk, ep |-> ep, sig |-> sig, d |-> d],
   v |-> ConnectView(EpOf(ep), pk, IF sig = "ok" /\ by = pk THEN pk ELSE 0, d)]
MsgA(by, ch, sig, d) ==
  [m |-> [t |-> "A", by |-> by, ch |-> ch, sig |-> sig, d |-> d],
   v |-> AckView(EpOf(ch), IF sig = "ok" THEN by ELSE 0, d)]
MsgU(e, n, hsh, d) ==
  [m |-> [t |-> "U", k |-> <<e, "of:A">>, n |-> n, hs |-> hsh, d |-> d],
   v |-> UserView(KeyOf(EpOf(e), Own), n, hsh = "ok", d)]

Connects == { MsgC(2, 2, "e1", "ok", 5), MsgC(3, 3, "e2", "ok", 0), MsgC(2, 2, "e2", "ok", 1),
              MsgC(2, 2, "e1", "bad", 7), MsgC(3, 2, "e2", "ok", 8), MsgC(2, 2, "of:A", "ok", 9),
              MsgC(2, 2, "low0", "ok", 10) }
Acks == { MsgA(2, "of:A", "ok", 11), MsgA(3, "of:A", "ok", 0), MsgA(2, "e2", "ok", 12),
          MsgA(2, "of:A", "bad", 13) }
Users == { MsgU("e1", n, "ok", 20 + n) : n \in 0..MaxN } \cup { MsgU("e1", n, "bad", 40 + n) : n \in {0, MaxN} }
         \cup { MsgU("e2", n, "ok", 60 + n) : n \in {0} }
Garbage == { [m |-> [rand |-> 3], v |-> [BaseView EXCEPT !.f = 0, !.len = 3]],
             [m |-> [rand |-> 40], v |-> [BaseView EXCEPT !.f = 2, !.len = 40]],
             [m |-> [rand |-> 9], v |-> [BaseView EXCEPT !.f = 2, !.len = 9]],
             [m |-> [t |-> "U", n |-> 0, d |-> 14, clear |-> "y"], v |-> [UserView(NoKey, 0, TRUE, 14) EXCEPT !.f = 1]],
             [m |-> [t |-> "C", by |-> 2, pk |-> 2, ep |-> "e1", d |-> 5, enc |-> <<"e1", "of:A">>],
              v |-> [ConnectView(2, 2, 2, 5) EXCEPT !.f = 2, !.k = KeyOf(2, Own)]],
             [m |-> [t |-> "A", by |-> 2, ch |-> "of:A", d |-> 11, p |-> <<[at |-> "pre", k |-> "set", off |-> 7, v |-> <<2>>]>>],
              v |-> [AckView(Own, 2, 11) EXCEPT !.vr = 2]],
             [m |-> [t |-> "C", by |-> 2, ep |-> "e1", d |-> 5, p |-> <<[at |-> "pre", k |-> "set", off |-> 17, v |-> <<9>>]>>],
              v |-> [ConnectView(2, 2, 2, 5) EXCEPT !.ty = 9]] }
\* Every message can come at any time: even what mentions the layer's ephemeral key before its CONNECT is
\* issued (the harness reads that key in the debug output of a new layer).
Menu == CASE Focus = "all" -> Connects \cup Acks \cup Users \cup Garbage
          [] Focus = "nego" -> Connects \cup Acks \cup Garbage \cup { x \in Users : x.v.n = 0 }
          [] Focus = "early" -> { MsgC(2, 2, "e1", "ok", 5), MsgA(2, "of:A", "ok", 11), MsgA(2, "of:A", "bad", 13) } \cup Users
          [] Focus = "window" -> Connects \cup Acks \cup Users \cup Garbage

----------------------------------------------------------------------------
Track(y, op, v) ==
  [g EXCEPT !.oC = IF op = "con" /\ y.r = "ok" THEN @ + 1 ELSE @,
            !.oA = IF op = "ack" /\ y.r = "ok" THEN @ + 1 ELSE @,
            !.sent = IF op = "wr" /\ y.r = "ok" THEN @ + 1 ELSE @,
            !.rC = @ \o SelectSeq([j \in 1..Len(y.dn) |-> y.dn[j].v], LAMBDA q : q.ty = TConnect),
            !.rA = @ \o SelectSeq([j \in 1..Len(y.dn) |-> y.dn[j].v], LAMBDA q : q.ty = TAck),
            !.del = @ \o [j \in 1..Len(y.du) |-> y.du[j].lo],
            !.dead = @ \/ y.h.st = "F"]

Do(y, opj, op, v) == h' = y.h /\ g' = Track(y, op, v) /\ a' = opj

Read == \E x \in Menu : LET y == ReadAny(h, x.v) IN Do(y, [op |-> "rd", m |-> x.m, r |-> y.r], "rd", x.v)
Con  == LET y == NegoCall(h, "con") IN Do(y, [op |-> "con", d |-> 3, r |-> y.r], "con", BaseView)
Ack  == LET y == NegoCall(h, "ack") IN Do(y, [op |-> "ack", d |-> 4, r |-> y.r], "ack", BaseView)
Wr   == h.sent < MaxSent /\ LET y == WriteUser(h) IN Do(y, [op |-> "wr", d |-> 80 + h.sent, r |-> y.r], "wr", BaseView)
Tk   == h.md = 0 /\ LET y == TakeAck(h) IN Do(y, [op |-> "tk", r |-> y.r], "tk", BaseView)
Dr   == h.md = 0 /\ LET y == Drain(h) IN Do(y, [op |-> "dr", r |-> y.r], "dr", BaseView)
Cl   == LET y == Clone(h) IN Do(y, [op |-> "cl", sw |-> FALSE, r |-> y.r], "cl", BaseView)
ClSw == /\ h.st = "S" /\ ~h.cl
        /\ h' = CloneOf(Clone(h).h) /\ g' = g /\ a' = [op |-> "cl", sw |-> TRUE, r |-> "ok"]
Cfg  == LET y == ChangeConfig(h, h.fmt) IN Do(y, [op |-> "cfg", r |-> y.r], "cfg", BaseView)

Fresh == { NewHandle(md, 1, p, Own, 0) : md \in Modes, p \in Pins }
\* CONNECT issued, the peer's CONNECT read, ACK issued, the peer's ACK read
Negotiated(f) ==
  LET h1 == NegoCall(f, "con").h
      h2 == ReadAny(h1, MsgC(2, 2, "e1", "ok", 5).v).h
      h3 == NegoCall(h2, "ack").h
  IN ReadAny(h3, MsgA(2, "of:A", "ok", 11).v).h

Init == /\ h \in IF Focus = "window" THEN { Negotiated(f) : f \in Fresh } ELSE Fresh
        /\ g = G0 /\ a = [op |-> "new"]
\* a failed layer is left to fixed probes: see Dead below
Next == h.st # "F" /\ (Focus = "nego" => h.st = "N") /\ (Read \/ Con \/ Ack \/ Wr \/ Tk \/ Dr \/ Cl \/ ClSw \/ Cfg)
Spec == Init /\ [][Next]_vars
\* the same, going on after the failure (checked, not emitted)
NextDead == Read \/ Con \/ Ack \/ Wr \/ Tk \/ Dr \/ Cl \/ ClSw \/ Cfg
SpecDead == Init /\ [][NextDead]_vars

Bound == CountUpTo(h.stk, Len(h.stk)) <= MaxStk
ViewH == <<h, IF g.dead THEN 1 ELSE 0>>
ViewG == <<h, g>>
\* coarse description of a state, for the selection of edges
Class(q) == <<q.md, q.pin, q.st, q.lo, q.re, IF q.aside = <<>> THEN 0 ELSE IF q.aside[1].sg = 0 THEN 1 ELSE q.aside[1].sg,
              Len(q.stk), IF q.key = NoKey THEN 0 ELSE 1, q.nx, Count(q.orp), q.cln, q.cl, IF q.sent > 0 THEN 1 ELSE 0>>
\* emission is per edge of the state graph of h alone
EmitEdge == Emit => PrintT(ToJson([s |-> TLCFP(h), op |-> a', t |-> TLCFP(h'), c |-> Class(h), d |-> h'.st]))

----------------------------------------------------------------------------
(* The single-layer part of the properties, over the specification *)
Type == TypeOK(h)
Ready == g.oC = 1 /\ g.oA = 1 /\ Len(g.rC) = 1 /\ Len(g.rA) = 1

InvC01 == /\ \A j \in 1..Len(g.rC) : g.rC[j].sg = g.rC[j].pk /\ g.rC[j].pk = g.rC[1].pk
          /\ \A j \in 1..Len(g.rA) : g.rA[j].sg # 0 /\ (g.rC # <<>> => g.rA[j].sg = g.rC[1].pk)
InvC02 == InvC01
InvC03 == \A j \in 1..Len(g.rA) : g.rA[j].ch = Own
InvC04 == (h.st = "S" \/ g.sent > 0 \/ g.del # <<>> \/ h.cln) => Ready
InvC08 == \A p, q \in 1..Len(g.del) : g.del[p] = g.del[q] => p = q
InvC10 == Count(h.orp) <= MaxOrphans /\ CountUpTo(h.stk, Len(h.stk)) <= MaxOrphans
InvC12 == \A j \in 1..Len(g.rC) : g.rC[j].ep # Own
InvC20 == g.oC <= 1 /\ g.oA <= 1 /\ h.sent = g.sent
InvC21 == \A j \in 1..Len(g.rC) : ~IsLow(g.rC[j].ep)
\* a failed layer stays failed, and issues, delivers and clones nothing
Dead == [][g.dead => /\ h'.st = "F" /\ g'.del = g.del /\ g'.rC = g.rC /\ g'.rA = g.rA /\ g'.sent = g.sent
                     /\ g'.oC = g.oC /\ g'.oA = g.oA]_vars
\* a rejected forgery leaves no trace
NoTrace == [][("r" \in DOMAIN a' /\ a'.op = "rd" /\ a'.r \in {"UnexpectedRemoteSigPubKey", "InvalidHashOrSig", "InvalidChallenge", "InvalidNonce"})
               => h' = h]_vars
\* a CONNECT adopts an identity only by its signature
Adopt == [][h'.pin # h.pin => h'.cl \/ (h.pin = 0 /\ h'.pin # 0)]_vars
==============================================================================
