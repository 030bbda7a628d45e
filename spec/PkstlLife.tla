------------------------------ MODULE PkstlLife ------------------------------
(***************************************************************************)
(* The lives of layers and of the secrets they hold.  Two layers (places 1 *)
(* and 2) negotiate with the same peer, are cloned (places 3..), fail, and *)
(* are dropped at any moment.  A session's secret comes into memory when a *)
(* CONNECT is accepted, is copied by cloning, and disappears from a place  *)
(* when what stands there is dropped; nothing else moves it.               *)
(***************************************************************************)
EXTENDS PkstlLayer, TLC, TLCExt, Json

CONSTANTS Places, Emit,
          Erase   \* FALSE: dropping leaves the secret where it was (a defect, for comparison)

Peer == 2
PeerEp == 10

VARIABLES hs,    \* place -> handle
          live,  \* place -> "free", "live", "gone"
          org,   \* place -> the layer it descends from
          mem,   \* place -> the secret that can be read there
          a
vars == <<hs, live, org, mem, a>>

Fresh(q) == NewHandle(1, q, 0, q, 0)
Originals == {1, 2}

On(q) == live[q] = "live"
Upd(q, op, y) == /\ hs' = [hs EXCEPT ![q] = y.h]
                 /\ a' = [op |-> op, h |-> q, o |-> org[q], n |-> hs[q].nx, t |-> 0]
                 /\ UNCHANGED <<live, org>>

New == \E q \in Originals : live[q] = "free" /\ (q = 2 => live[1] # "free")
  /\ live' = [live EXCEPT ![q] = "live"] /\ hs' = [hs EXCEPT ![q] = Fresh(q)] /\ org' = [org EXCEPT ![q] = q]
  /\ a' = [op |-> "new", h |-> q, o |-> q, n |-> 0, t |-> 0] /\ UNCHANGED mem

Con == \E q \in Places : On(q) /\ hs[q].st = "N" /\ hs[q].lo = 0 /\ Upd(q, "con", NegoCall(hs[q], "con")) /\ UNCHANGED mem
Ack == \E q \in Places : On(q) /\ hs[q].st = "N" /\ hs[q].re = 1 /\ Upd(q, "ack", NegoCall(hs[q], "ack")) /\ UNCHANGED mem
RdC == \E q \in Places : On(q) /\ hs[q].st = "N" /\ hs[q].re = 0 /\
         LET y == ReadAny(hs[q], ConnectView(PeerEp, Peer, Peer, 5))
         IN Upd(q, "rdc", y) /\ mem' = [mem EXCEPT ![q] = KeyOf(q, PeerEp)]
RdA == \E q \in Places : On(q) /\ hs[q].st = "N" /\ hs[q].lo = 1 /\ hs[q].pin # 0 /\
         Upd(q, "rda", ReadAny(hs[q], AckView(hs[q].ep, Peer, 11))) /\ UNCHANGED mem
\* the next user message of the peer, received or held
RdU == \E q \in Places : On(q) /\ (hs[q].st = "S" \/ (hs[q].lo = 1 /\ hs[q].re = 2 /\ hs[q].stk = <<>>)) /\ hs[q].nx = 0 /\
         Upd(q, "rdu", ReadAny(hs[q], UserView(hs[q].key, 0, TRUE, 200))) /\ UNCHANGED mem
Wr  == \E q \in Places : On(q) /\ hs[q].st = "S" /\ hs[q].sent = 0 /\ Upd(q, "wr", WriteUser(hs[q])) /\ UNCHANGED mem
\* a message that is none
Bad == \E q \in Places : On(q) /\ hs[q].st # "F" /\ Upd(q, "bad", Fatal(hs[q], "MessageTooShort")) /\ UNCHANGED mem
Cl  == \E q \in Places, t \in Places \ Originals :
         /\ On(q) /\ hs[q].st = "S" /\ live[t] = "free" /\ \A p \in Places \ Originals : p < t => live[p] # "free"
         /\ LET y == Clone(hs[q]) IN hs' = [hs EXCEPT ![q] = y.h, ![t] = CloneOf(y.h)]
         /\ live' = [live EXCEPT ![t] = "live"] /\ org' = [org EXCEPT ![t] = org[q]]
         /\ mem' = [mem EXCEPT ![t] = mem[q]]
         /\ a' = [op |-> "cl", h |-> q, o |-> org[q], n |-> 0, t |-> t]
Drop == \E q \in Places :
         /\ On(q)
         /\ live' = [live EXCEPT ![q] = "gone"] /\ hs' = [hs EXCEPT ![q] = Fresh(q)]
         /\ mem' = IF Erase THEN [mem EXCEPT ![q] = NoKey] ELSE mem
         /\ a' = [op |-> "drop", h |-> q, o |-> org[q], n |-> 0, t |-> 0] /\ UNCHANGED org

Init == /\ hs = [q \in Places |-> Fresh(q)] /\ live = [q \in Places |-> "free"] /\ org = [q \in Places |-> 0]
        /\ mem = [q \in Places |-> NoKey] /\ a = [op |-> "init"]
Next == New \/ Con \/ Ack \/ RdC \/ RdA \/ RdU \/ Wr \/ Bad \/ Cl \/ Drop
Spec == Init /\ [][Next]_vars

ViewL == <<hs, live, org, mem>>
Step(q) == <<live[q], hs[q].st, hs[q].lo, hs[q].re, hs[q].stk # <<>>, hs[q].nx, hs[q].sent, org[q]>>
EmitEdge == Emit = "edges" => PrintT(ToJson([s |-> TLCFP(ViewL), op |-> a', t |-> TLCFP(ViewL'),
              c |-> <<Step(IF "h" \in DOMAIN a' THEN a'.h ELSE 1), Cardinality({q \in Places : live[q] = "live"}), Cardinality({q \in Places : live[q] = "gone"})>>, d |-> "N"]))

----------------------------------------------------------------------------
Type == \A q \in Places : TypeOK(hs[q])
\* C27: a secret is where a layer holds it, and nowhere else
InvErase == \A q \in Places : mem[q] = IF On(q) THEN hs[q].key ELSE NoKey
\* the secret of a session is gone when the last of its layers is
InvLast == \A o \in Originals : (\A q \in Places : org[q] = o => ~On(q)) => \A q \in Places : mem[q] # KeyOf(o, PeerEp)
\* nobody notices
InvAlone == [][a'.op = "drop" => \A q \in Places \ {a'.h} : hs'[q] = hs[q] /\ live'[q] = live[q] /\ mem'[q] = mem[q]]_vars
==============================================================================
