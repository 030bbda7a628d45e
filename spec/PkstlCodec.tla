----------------------------- MODULE PkstlCodec ------------------------------
(***************************************************************************)
(* What becomes of contents: two complete layers, each with its own        *)
(* settings (compression level, threshold, message format), which can      *)
(* change at any moment until the layer is cloned, also while a message is *)
(* on its way.  Contents are binary (several sizes around the thresholds)  *)
(* or typed values.                                                        *)
(*                                                                         *)
(* The sender alone decides the form of a content on the wire: below the   *)
(* threshold it is stored, from it on deflated with the configured level,  *)
(* and a typed value is preceded by its format.  The receiver consults the *)
(* message only, never its own settings.                                   *)
(***************************************************************************)
EXTENDS PkstlLayer, TLC, TLCExt, Json

CONSTANTS Emit, Strict   \* Strict = FALSE: the receiver trusts its own format (a defect, for comparison)

\* lv compression level, ms threshold, fm format
Settings == << [lv |-> 0, ms |-> 0,       fm |-> 2], [lv |-> 1, ms |-> 64,      fm |-> 3],
               [lv |-> 9, ms |-> 0,       fm |-> 4], [lv |-> 6, ms |-> 1000000, fm |-> 2],
               [lv |-> 9, ms |-> 64,      fm |-> 3], [lv |-> 6, ms |-> 64,      fm |-> 0],
               [lv |-> 1, ms |-> 65,      fm |-> 4], [lv |-> 9, ms |-> 0,       fm |-> 1] >>
\* contents: t typed, len size of a binary content (-1: absent)
Items == << [t |-> FALSE, len |-> -1], [t |-> FALSE, len |-> 0], [t |-> FALSE, len |-> 1], [t |-> FALSE, len |-> 63],
            [t |-> FALSE, len |-> 64], [t |-> FALSE, len |-> 65], [t |-> FALSE, len |-> 9000],
            [t |-> TRUE,  len |-> -1], [t |-> TRUE,  len |-> 10], [t |-> TRUE,  len |-> 64], [t |-> TRUE, len |-> 9000] >>

VARIABLES hs,    \* the two handles
          cf,    \* their settings: index in Settings
          step,  \* 1..8: the negotiation; 9: session
          fl,    \* message on its way: [to, it, v, fm, z] or <<>>
          rep,   \* the last message read: [it, got] or <<>>
          a
vars == <<hs, cf, step, fl, rep, a>>

\* who does what in the negotiation; contents differ, orders are the business of PkstlNet
Plan == << <<"con", 1>>, <<"rd", 2>>, <<"con", 2>>, <<"rd", 1>>, <<"ack", 1>>, <<"rd", 2>>, <<"ack", 2>>, <<"rd", 1>> >>

Absent(k) == Items[k].len = -1
\* identifiers of contents as PkstlLayer uses them: 0 absent, 1 empty
DataOf(k)  == IF Absent(k) THEN 0 ELSE IF Items[k].len = 0 THEN 1 ELSE 100 + k
ValueOf(k) == IF Absent(k) THEN 0 ELSE k

Pack(c, len) == IF len < c.ms THEN [how |-> "stored", lv |-> 0] ELSE [how |-> "deflated", lv |-> c.lv]

Cfg == \E q \in 1..2, c \in 1..Len(Settings) :
  /\ c # cf[q]
  /\ IF fl = <<>> THEN TRUE ELSE fl[1].to = q   \* settings of the sender do not matter any more: only the receiver's
  /\ LET y == ChangeConfig(hs[q], Settings[c].fm) IN
     /\ hs' = [hs EXCEPT ![q] = y.h]
     /\ cf' = IF y.r = "ok" THEN [cf EXCEPT ![q] = c] ELSE cf
     /\ a' = [op |-> "cfg", h |-> q, c |-> c]
  /\ UNCHANGED <<step, fl>> /\ rep' = <<>>

Sent(q, op, k, y) ==
  LET h == hs[q]
      v0 == CASE op = "con" -> ConnectView(h.ep, h.me, h.me, DataOf(k))
              [] op = "ack" -> AckView(h.pe, h.me, DataOf(k))
              [] OTHER -> UserView(h.key, h.sent, TRUE, DataOf(k))
      v == IF Items[k].t THEN [v0 EXCEPT !.bl = IF Absent(k) THEN 0 ELSE 1, !.fm = IF Absent(k) THEN -1 ELSE h.fmt, !.tv = ValueOf(k)] ELSE v0
  IN [to |-> 3 - q, it |-> k, v |-> v, z |-> Pack(Settings[cf[q]], Items[k].len)]

Write == \E q \in 1..2, k \in 1..Len(Items) :
  /\ fl = <<>>
  /\ IF step <= 8 THEN Plan[step][1] # "rd" /\ Plan[step][2] = q ELSE ~Absent(k)
  /\ LET op == IF step <= 8 THEN Plan[step][1] ELSE "wr"
         kd == CASE op = "con" -> "C" [] op = "ack" -> "A" [] OTHER -> "U"
         y == IF Items[k].t THEN TypedCall(hs[q], kd, ValueOf(k)) ELSE IF op = "wr" THEN WriteUser(hs[q]) ELSE NegoCall(hs[q], op)
     IN /\ hs' = [hs EXCEPT ![q] = y.h]
        /\ IF y.r = "ok" THEN fl' = << Sent(q, op, k, y) >> /\ step' = (IF step <= 8 THEN step + 1 ELSE 9)
                         ELSE fl' = <<>> /\ step' = step
        /\ a' = [op |-> op, h |-> q, it |-> k]
  /\ rep' = <<>> /\ UNCHANGED cf

\* what the receiver makes of the content of the message: the format is that of the message
TypedRead(h, v) == IF Strict THEN ReadTyped(h, v) ELSE ReadTyped(h, [v EXCEPT !.fm = IF @ = -1 THEN @ ELSE h.fmt, !.tv = IF v.fm = h.fmt THEN @ ELSE -1])
Read == \E q \in 1..2 :
  /\ fl # <<>> /\ fl[1].to = q
  /\ IF step <= 8 THEN Plan[step] = <<"rd", q>> ELSE TRUE
  /\ LET k == fl[1].it
         y == IF Items[k].t THEN TypedRead(hs[q], fl[1].v) ELSE ReadAny(hs[q], fl[1].v)
         got == IF y.r # "ok" THEN -2 ELSE IF y.dn # <<>> THEN y.dn[1].d ELSE y.du[1].d
     IN /\ hs' = [hs EXCEPT ![q] = y.h]
        /\ rep' = << [it |-> k, r |-> y.r, got |-> got] >>
        /\ a' = [op |-> IF Items[k].t THEN "tr" ELSE "rd", h |-> q]
        /\ step' = IF step <= 8 THEN step + 1 ELSE 9
  /\ fl' = <<>> /\ UNCHANGED cf

\* goes on with the clone
Cl == \E q \in 1..2 :
  /\ step = 9 /\ fl = <<>> /\ ~hs[q].cl
  /\ hs' = [hs EXCEPT ![q] = CloneOf(Clone(hs[q]).h)]
  /\ a' = [op |-> "cl", h |-> q] /\ rep' = <<>> /\ UNCHANGED <<cf, step, fl>>

Init == /\ hs = [q \in 1..2 |-> NewHandle(1, q, 0, q, Settings[q].fm)]
        /\ cf = <<1, 2>> /\ step = 1 /\ fl = <<>> /\ rep = <<>> /\ a = [op |-> "new"]
Next == Cfg \/ Write \/ Read \/ Cl
Spec == Init /\ [][Next]_vars

\* numbers do not matter here
InFlight == IF fl = <<>> THEN <<>> ELSE <<fl[1].to, fl[1].it, fl[1].v.fm, fl[1].z>>
ViewC == <<cf, step, InFlight, hs[1].cl, hs[2].cl, hs[1].st, hs[2].st, rep>>
ViewE == <<cf, step, InFlight, hs[1].cl, hs[2].cl>>
EmitEdge == Emit = "edges" => PrintT(ToJson([s |-> TLCFP(ViewE), op |-> a', t |-> TLCFP(ViewE'),
              c |-> <<IF step = 9 THEN 9 ELSE step, IF fl = <<>> THEN 0 ELSE fl[1].it, IF fl = <<>> THEN cf[1] ELSE cf[fl[1].to], hs[1].cl, hs[2].cl>>, d |-> "N"]))

----------------------------------------------------------------------------
Type == \A q \in 1..2 : TypeOK(hs[q])
\* C16 and C17: what was written is what is read, whatever the settings of the reader
InvC16 == rep # <<>> => rep[1].r = "ok" /\ rep[1].got = (IF Items[rep[1].it].t THEN ValueOf(rep[1].it) ELSE DataOf(rep[1].it))
\* C18: the settings of a cloned layer are frozen
InvC18 == [][\A q \in 1..2 : hs[q].cln => cf'[q] = cf[q] /\ hs'[q].fmt = hs[q].fmt]_vars
\* nothing here makes a layer fail
InvAlive == \A q \in 1..2 : hs[q].st # "F"
\* the format a typed message announces is that of its writer at the time of writing
InvC17 == fl # <<>> => (Items[fl[1].it].t /\ ~Absent(fl[1].it) => fl[1].v.fm \in {2, 3, 4})
==============================================================================
