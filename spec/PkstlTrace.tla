----------------------------- MODULE PkstlTrace -----------------------------
(***************************************************************************)
(* Validates recorded executions of the real crate.                        *)
(*                                                                         *)
(* Every line of the file named by the environment variable TRACES is one  *)
(* execution: the public calls made on a few layers, with the projection   *)
(* of their arguments and results (driver/src/ctx.rs).  Each trace is one  *)
(* initial state; each step consumes one event, computes with PkstlLayer   *)
(* what the specification allows, and evaluates the monitors: formulas of  *)
(* the listed properties over the specification state, the history and the *)
(* observation.                                                            *)
(*                                                                         *)
(* Two kinds of monitors: those that compare the observation with the      *)
(* specified outcome are evaluated while the handle is in step with the    *)
(* specification (sy); those over the observed history are evaluated       *)
(* always.                                                                 *)
(***************************************************************************)
EXTENDS PkstlLayer, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

Props == <<"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13",
           "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27">>
PropIdx(p) == CHOOSE i \in 1..Len(Props) : Props[i] = p

VARIABLES tr,    \* which trace
          i,     \* next event
          hs,    \* handle number -> [h: specification state, sy: in step, m: history]
          ws,    \* issued wire id -> [v: its meaning, by: handles that issued it, ep, key, me, k: kind]
          kst,   \* key stream id -> session key it was seen with
          viol,  \* violations found in this trace
          cnt    \* per property, how often one of its monitors was exercised
vars == <<tr, i, hs, ws, kst, viol, cnt>>

ViewOf(a) ==
  [f |-> a[1], len |-> a[2], k |-> <<a[3], a[4]>>, w |-> a[5], wi |-> a[6], pl |-> a[7], mg |-> a[8] = 1,
   vr |-> a[9], dc |-> a[10], ty |-> a[11], n |-> a[12], ep |-> a[13], al |-> a[14], pk |-> a[15],
   ch |-> a[16], sg |-> a[17], hs |-> a[18] = 1, b |-> a[19], zb |-> a[20], bl |-> a[21], fm |-> a[22],
   tv |-> a[23]]

\* what the reader is given: ciphertexts between two real layers are opaque to the harness, but it
\* knows which call produced them
Meaning(a) ==
  LET v == ViewOf(a) IN
  IF v.w # 0 /\ v.w \in DOMAIN ws
  THEN [ws[v.w].v EXCEPT !.len = v.len, !.wi = v.wi] ELSE v

Get(e, f, default) == IF f \in DOMAIN e THEN e[f] ELSE default

\* ids of contents unknown to the harness
Norm(d) == IF d >= 900000000 THEN 900000000 ELSE d

----------------------------------------------------------------------------
(* History of one handle *)

M0(pin) == [cpin |-> pin,            \* configured pin
            ad |-> 0,                \* identity of the first CONNECT reported
            oC |-> 0, oA |-> 0,      \* how many CONNECT and ACK were issued
            rC |-> <<>>, rA |-> <<>>,\* views of the CONNECT and ACK reported
            as |-> <<>>,             \* last ACK consumed without being reported
            rx |-> <<>>,             \* user messages received: views
            bx |-> <<>>,             \* bulk runs received
            dl |-> <<>>,             \* contents delivered by single reads
            wn |-> 0,                \* user messages written
            clean |-> TRUE,          \* nothing was refused so far
            wf |-> FALSE,            \* a writer failed
            gone |-> FALSE]          \* was dropped

\* typed values and binary contents have identifiers of their own
Tag(op, d) == IF op = "tr" THEN -(d + 1000) ELSE d
CountIn(s, d) == Cardinality({j \in 1..Len(s) : s[j] = d})

\* the content of a written message is the given one; without content the minimal mode cannot tell empty
\* from absent, the complete mode can
Carries(h, ov, d) == Content(h, ov) = d \/ (h.md = 0 /\ d = 1 /\ ov.b = 0)

\* content of a view as reported by the call
Shown(h, op, v) == IF op = "tr" THEN TypedValue(v) ELSE Content(h, v)

----------------------------------------------------------------------------
(* What the specification says about an event on one handle: result, and whether it is specified *)

Spec(h, e, v) ==
  LET op == e.op
      x0 == CASE op \in {"con", "ack"} -> NegoCall(h, op)
              [] op = "wr" -> WriteUser(h)
              [] op = "tw" -> TypedCall(h, e.k, e.t)
              [] op = "rd" -> ReadAny(h, v)
              [] op = "tr" -> ReadTyped(h, v)
              [] op = "tk" -> TakeAck(h)
              [] op = "dr" -> Drain(h)
              [] op = "cl" -> Clone(h)
              [] op = "cfg" -> ChangeConfig(h, e.fmt)
              [] op = "drop" -> Ok(h)
              [] op = "bulk" -> LET y == Bulk(h, e.k, [lo |-> e.lo, hi |-> e.hi, st |-> e.st, d |-> e.cb, hs |-> TRUE,
                                                      bl |-> 1, fm |-> -1, tv |-> -1])
                                IN Res(y.h, "ok", <<>>, y.outs)
              [] op = "bw" -> LET y == BulkWrite(h, e.c) IN Res(y.h, "ok", <<>>, y.outs)
              [] op = "br" -> LET y == BulkSame(h, v, e.c) IN Res(y.h, "ok", <<>>, y.outs)
      kind == CASE op = "con" -> "con" [] op = "ack" -> "ack" [] op = "wr" -> "wr"
                [] op = "tw" /\ e.k = "C" -> "con" [] op = "tw" /\ e.k = "A" -> "ack" [] OTHER -> "wr"
  IN IF Get(e, "flt", 0) = 1 THEN WriterFault(h, kind, x0) ELSE x0

AnyResult(h, e, v) ==
  /\ e.op \in {"rd", "tr", "tk", "dr"}
  /\ LET x == CASE e.op = "tr" -> ReadFull(h, v) [] e.op = "rd" -> ReadAny(h, v)
               [] e.op = "tk" -> TakeAck(h) [] OTHER -> Drain(h)
     IN Unspecified(h, x)

\* the contents a delivery reports; a run that was held gives one content per message
RECURSIVE Contents(_, _)
Contents(du, j) ==
  IF j > Len(du) THEN <<>>
  ELSE (IF du[j].lo = du[j].hi THEN <<du[j].d>>
        ELSE [q \in 1..EntryLen(du[j]) |-> du[j].d + du[j].lo + (q - 1) * du[j].st]) \o Contents(du, j + 1)

DnEq(xd, od) == /\ Len(xd) = Len(od)
                /\ \A j \in 1..Len(xd) : xd[j].k = od[j].k /\ xd[j].pk = od[j].pk /\ xd[j].d = od[j].d
DuEq(xd, od) == Contents(xd, 1) = od
BulkEq(xo, oo) == /\ Len(xo) = Len(oo)
                  /\ \A j \in 1..Len(xo) : xo[j].s = oo[j].s /\ xo[j].c = oo[j].c

\* two runs of the same call have the same outcome (t: outcome of the other run); identifiers of contents
\* and of keys that the harness learnt during a run are its own
OneView(a, b) ==
  LET v == ViewOf(a)  w == ViewOf(b) IN
  /\ v.f = w.f /\ v.len = w.len
  /\ (v.f = 1 \/ v.k # NoKey) /\ (w.f = 1 \/ w.k # NoKey) =>
        v.ty = w.ty /\ v.n = w.n /\ v.vr = w.vr /\ v.dc = w.dc /\ v.al = w.al /\ v.bl = w.bl /\ v.fm = w.fm /\ v.tv = w.tv
SameRun(e, t) ==
  /\ t.r = e.r
  /\ e.op \in {"rd", "tr", "tk", "dr"} =>
       /\ Len(t.dn) = Len(e.dn) /\ Len(t.du) = Len(e.du)
       /\ \A j \in 1..Len(e.dn) : /\ t.dn[j].k = e.dn[j].k /\ Norm(t.dn[j].d) = Norm(e.dn[j].d)
                                  /\ t.dn[j].pk < 100 /\ e.dn[j].pk < 100 => t.dn[j].pk = e.dn[j].pk
       /\ \A j \in 1..Len(e.du) : Norm(t.du[j]) = Norm(e.du[j])
  /\ e.op \in {"bulk", "bw", "br"} => BulkEq(t.outs, e.outs)
  /\ ("ov" \in DOMAIN t) = ("ov" \in DOMAIN e)
  /\ "ov" \in DOMAIN e => OneView(t.ov, e.ov)

----------------------------------------------------------------------------
(* Obligations *)

Ob(p, g, ok, why) == IF g THEN <<[p |-> p, ok |-> ok, why |-> why]>> ELSE <<>>

FatalNames == FramingErrors \cup {"UnexpectedConnectMsg", "UnexpectedAckMsg", "TooManyUnorderedMsgs",
                                  "FailToComputeAgreement", "NegoMustHaveBeenSuccessful"}
Rejections == {"UnexpectedRemoteSigPubKey", "InvalidHashOrSig", "InvalidChallenge", "InvalidNonce"}

\* writers of a message that are another layer than the one with ephemeral key ep
ByOther(w, ep) == \E q \in w.by : hs[q].h.ep # ep

(* n: handle number, c: its record [h, sy, m], e: event, v: meaning of the bytes read, x: specified result,
   any: result unspecified, id: trace id, m2: history after the event *)
Obligations(n, c, e, v, x, any, m2, id) ==
  LET h == c.h   m == c.m   sy == c.sy /\ ~any   op == e.op
      ok   == e.r = "ok"
      isRd == op \in {"rd", "tr", "tk", "dr"}
      hasV == op \in {"rd", "tr"}
      many == op \in {"bulk", "bw", "br"}
      wrU  == op = "wr" \/ (op = "tw" /\ e.k = "U")
      wrC  == op = "con" \/ (op = "tw" /\ e.k = "C")
      wrA  == op = "ack" \/ (op = "tw" /\ e.k = "A")
      dn   == IF isRd /\ ok THEN e.dn ELSE <<>>
      du   == IF isRd /\ ok THEN e.du ELSE <<>>
      nd   == IF op = "bulk" THEN \E j \in 1..Len(e.outs) : e.outs[j].s \in {"del", "odd"} ELSE du # <<>>
      sink == "flt" \in DOMAIN e
      flt  == Get(e, "flt", 0) = 1
      ov   == IF "ov" \in DOMAIN e THEN ViewOf(e.ov) ELSE BaseView
      hasO == "ov" \in DOMAIN e
      \* source of a reported CONNECT / ACK
      srcC == v
      srcA == IF hasV /\ v.ty = TAck THEN <<v>> ELSE m.as
      pin  == IF m.cpin # 0 THEN m.cpin ELSE m.ad
      nego == (c.sy /\ h.st = "S") \/ (m.oC > 0 /\ m.oA > 0 /\ m2.rC # <<>> /\ m2.rA # <<>>)
      valid == (c.sy /\ h.st = "S") \/
               (/\ m.rC # <<>> /\ m.rA # <<>>
                /\ \A j \in 1..Len(m.rC) : m.rC[j].sg = m.rC[j].pk /\ (m.cpin # 0 => m.rC[j].pk = m.cpin)
                /\ \A j \in 1..Len(m.rA) : m.rA[j].sg = pin /\ m.rA[j].ch = h.ep)
      \* the other end of the session key; the harness can open what is sealed for it
      far == IF h.key[1] = h.ep THEN h.key[2] ELSE h.key[1]
      refPeer == h.key # NoKey /\ far < 50000 /\ \A q \in DOMAIN hs : hs[q].h.ep # far
      \* the session of the CONNECT reported last
      lastKey == IF m2.rC = <<>> THEN h.key ELSE KeyOf(m2.rC[Len(m2.rC)].ep, h.ep)
      clearNego == hasV /\ v.f = 1 /\ v.ty \in {TConnect, TAck}
      userIn == hasV /\ ((v.f = 2 /\ v.ty = TUser) \/ (v.f = 1 /\ v.ty = TUser))
      same == IF many THEN ok /\ BulkEq(x.du, e.outs)
              ELSE (x.r = "ok") = ok /\ (ok /\ isRd => DnEq(x.dn, e.dn) /\ DuEq(x.du, e.du) /\ e.uo)
      \* user messages received whose content is d and that were sealed for this session
      Cand(d) == {j \in 1..Len(m2.rx) : Shown(h, op, m2.rx[j]) = d}
      Good(d) == {j \in Cand(d) : m2.rx[j].f = 2 /\ m2.rx[j].ty = TUser /\ m2.rx[j].k = h.key /\ m2.rx[j].hs}
      InBulk(d) == \E j \in 1..Len(m2.bx) : LET b == m2.bx[j] IN
                      d >= b.cb + b.lo /\ d <= b.cb + b.hi /\ (d - b.cb - b.lo) % b.st = 0
      Kf(s) == id = s
      var == "ft" \in DOMAIN Traces[tr]
  IN
  \* ---- C01
  Ob("C01", dn # <<>> /\ dn[1].k = "C",
     srcC.ty = TConnect /\ srcC.pk = dn[1].pk /\ srcC.sg = srcC.pk
     /\ (m.cpin # 0 => dn[1].pk = m.cpin) /\ (m.ad # 0 => dn[1].pk = m.ad), "CONNECT reported without proof of the expected identity")
  \o Ob("C01", \E j \in 1..Len(dn) : dn[j].k = "A",
     LET p == IF dn[1].k = "C" THEN dn[1].pk ELSE pin
     IN srcA # <<>> /\ srcA[1].sg # 0 /\ (p # 0 => srcA[1].sg = p) /\ (p = 0 => c.sy /\ srcA[1].sg = h.pin),
     "ACK reported without proof of the expected identity")
  \o Ob("C01", sy /\ hasV /\ x.r \in {"UnexpectedRemoteSigPubKey", "InvalidHashOrSig"} /\ clearNego, ~ok, "foreign or unproven identity accepted")
  \o Ob("C01", sy /\ hasV /\ clearNego /\ v.ty = TConnect /\ (h.pin = 0 \/ v.pk = h.pin), e.r # "UnexpectedRemoteSigPubKey", "expected identity refused")
  \o Ob("C01", sy /\ hasV /\ clearNego /\ x.r = "ok", e.r \notin {"UnexpectedRemoteSigPubKey", "InvalidHashOrSig"}, "expected identity refused")
  \o Ob("C01", sy /\ dn # <<>> /\ x.dn # <<>>, dn[1].pk = x.dn[1].pk, "wrong identity reported")
  \o Ob("C01", (wrU \/ op = "cl") /\ ok, valid, "negotiated without proof of the peer's identity")
  \* ---- C02
  \o Ob("C02", dn # <<>>, \A j \in 1..Len(dn) :
          IF dn[j].k = "C" THEN srcC.ty = TConnect /\ srcC.f = 1 /\ srcC.sg # 0 /\ srcC.sg = srcC.pk
          ELSE srcA # <<>> /\ srcA[1].ty = TAck /\ srcA[1].sg # 0, "unsigned negotiation message reported")
  \o Ob("C02", sy /\ hasV /\ v.f = 1 /\ v.ty # TUser /\ x.r # "ok", ~ok, "altered negotiation message accepted")
  \o Ob("C02", sy /\ hasV /\ v.f = 1 /\ v.ty # TUser /\ x.r # "ok", dn = <<>>, "altered negotiation message reported")
  \o Ob("C02", sy /\ hasV /\ dn # <<>> /\ x.r = "ok", DnEq(x.dn, dn) \/ Len(x.dn) >= Len(dn), "unproven set-aside ACK reported")
  \o Ob("C02", sy /\ hasV /\ x.r = "ok" /\ v.f = 1 /\ v.ty # TUser /\ v.sg = 0 , dn = <<>>, "unsigned negotiation message reported")
  \o Ob("C02", sy /\ wrA /\ x.r # "ok" , ~ok, "ACK issued without a proven CONNECT")
  \o Ob("C02", (wrU \/ op = "cl") /\ ok, valid, "negotiated on unproven messages")
  \* ---- C03
  \o Ob("C03", \E j \in 1..Len(dn) : dn[j].k = "A", srcA # <<>> /\ srcA[1].ch = h.ep, "ACK for another key reported")
  \o Ob("C03", sy /\ hasV /\ v.f = 1 /\ v.ty = TAck /\ x.r = "InvalidChallenge", ~ok, "ACK for another key accepted")
  \o Ob("C03", (wrU \/ op = "cl") /\ ok, valid, "negotiated without an ACK for its own key")
  \o Ob("C03", sy /\ hasV /\ v.f = 1 /\ v.ty = TAck /\ x.r = "ok", e.r # "InvalidChallenge", "ACK for its own key refused")
  \* ---- C04
  \o Ob("C04", wrU /\ ~nego, ~ok, "user data written before the end of the negotiation")
  \o Ob("C04", op = "cl" /\ ~nego, ~ok, "cloned before the end of the negotiation")
  \o Ob("C04", nd, (c.sy /\ x.h.st = "S") \/ (m.oC > 0 /\ m.oA > 0 /\ m2.rC # <<>> /\ m2.rA # <<>>), "user data delivered before the end of the negotiation")
  \o Ob("C04", wrU /\ h.st = "N" /\ ~flt /\ Get(e, "sp", 0) = 1, FALSE, "user data on the wire before the end of the negotiation")
  \o Ob("C04", hasV /\ h.st = "N" /\ sy /\ userIn /\ x.r # "ok", ~ok, "user message neither held nor refused before its time")
  \* ---- C05
  \o Ob("C05", sy /\ m.clean /\ x.r = "ok" /\ (wrC \/ wrA \/ (isRd /\ h.st = "N")),
        flt \/ (ok /\ (isRd => DnEq(x.dn, dn) /\ (op # "rd" \/ DuEq(x.du, du)))), "an honest negotiation step failed")
  \o Ob("C05", sy /\ m.clean /\ h.st = "S" /\ wrU /\ m.wn = 0, flt \/ ok \/ x.r # "ok", "negotiation not completed")
  \o Ob("C05", sy /\ m.clean /\ h.st = "S" /\ op = "cl", ok, "negotiation not completed")
  \* ---- C06
  \o Ob("C06", h.st = "F" /\ (wrU \/ wrC \/ wrA \/ op = "cl"), ~ok, "a failed layer was used")
  \o Ob("C06", h.st = "F" /\ isRd, dn = <<>> /\ du = <<>>, "a failed layer delivered")
  \o Ob("C06", h.st = "F" /\ op = "bulk", ~nd, "a failed layer delivered")
  \o Ob("C06", c.sy /\ h.st = "N" /\ x.h.st = "F" /\ op \in {"rd", "tr", "wr"} /\ ~flt, ~ok, "a fatal event was not refused")
  \* ---- C07
  \o Ob("C07", "tn" \in DOMAIN e,
        SameRun(e, e.tn), "the outcome depends on a rejected message")
  \* ---- C08
  \o Ob("C08", du # <<>> /\ Len(du) < 300, \A j \in 1..Len(du) :
          \/ InBulk(du[j]) \/ Cand(du[j]) = {}
          \/ CountIn(m2.dl, Tag(op, du[j])) <= Cardinality({<<m2.rx[q].k, m2.rx[q].n>> : q \in Cand(du[j])}), "delivered twice")
  \o Ob("C08", sy /\ hasV /\ x.r = "InvalidNonce", ~ok, "replay accepted")
  \o Ob("C08", sy /\ isRd /\ x.r = "ok" /\ ok /\ du # <<>> /\ Len(du) < 300, \A j \in 1..Len(du) : CountIn(du, du[j]) <= CountIn(Contents(x.du, 1), du[j]) \/ CountIn(Contents(x.du, 1), du[j]) = 0, "delivered twice")
  \o Ob("C08", sy /\ op = "bulk" /\ x.du # <<>> /\ x.du[1].s = "InvalidNonce", \A j \in 1..Len(e.outs) : e.outs[j].s \notin {"del", "odd", "held"}, "replays accepted")
  \* ---- C09
  \o Ob("C09", sy /\ isRd /\ x.r = "ok" /\ (x.du # <<>> \/ du # <<>>), ok /\ DuEq(x.du, du), "a user message was lost, altered or reordered")
  \o Ob("C09", sy /\ hasV /\ x.r = "ok" /\ v.f = 2, ok, "a genuine user message was refused")
  \o Ob("C09", sy /\ isRd /\ x.r = "ok" /\ h.stk # <<>>, ok, "held user messages were lost")
  \o Ob("C09", sy /\ op = "bulk" /\ \E j \in 1..Len(x.du) : x.du[j].s \in {"del", "held"}, BulkEq(x.du, e.outs), "genuine user messages were lost")
  \* ---- C10
  \o Ob("C10", sy /\ isRd /\ (x.r = "TooManyUnorderedMsgs" \/ e.r = "TooManyUnorderedMsgs"), x.r = e.r, "bound on unordered messages not respected")
  \o Ob("C10", sy /\ op = "bulk" /\ RunLen([lo |-> e.lo, hi |-> e.hi, st |-> e.st]) > 100, BulkEq(x.du, e.outs), "bound on unordered messages not respected")
  \o Ob("C10", sy /\ op = "bulk" /\ \E j \in 1..Len(x.du) : x.du[j].s = "TooManyUnorderedMsgs", BulkEq(x.du, e.outs), "bound on unordered messages not respected")
  \o Ob("C10", sy /\ op # "bulk" /\ (Count(h.orp) > 9000 \/ CountUpTo(h.stk, Len(h.stk)) > 9000), same, "bound on unordered messages not respected")
  \* ---- C11
  \o Ob("C11", du # <<>>, \A j \in 1..Len(du) : InBulk(du[j]) \/ Good(du[j]) # {} \/ any, "delivered a message that was not received encrypted and intact")
  \o Ob("C11", sy /\ hasV /\ (v.f = 2 \/ v.ty = TUser) /\ x.r \in {"FailToDecryptData", "UnexpectedEncryptionState", "InvalidHashOrSig", "MessageTooShort", "InvalidMagicValue", "UnexpectedMessage"},
        ~ok, "altered, forged or unencrypted user message accepted")
  \* ---- C12
  \o Ob("C12", du # <<>>, \A j \in 1..Len(du) : \/ InBulk(du[j]) \/ any
          \/ \E q \in Cand(du[j]) : m2.rx[q].k = h.key /\ m2.rx[q].k = lastKey /\ (m2.rx[q].wi = 0 \/ m2.rx[q].wi \notin DOMAIN ws \/ ByOther(ws[m2.rx[q].wi], h.ep)),
        "delivered a message that the peer did not write in this session")
  \o Ob("C12", sy /\ hasV /\ v.f = 2 /\ x.r = "FailToDecryptData", ~ok, "message of another session accepted")
  \o Ob("C12", dn # <<>> /\ dn[1].k = "C", srcC.ep # h.ep, "negotiates with its own reflected CONNECT")
  \o Ob("C12", hasV /\ v.f = 1 /\ v.ty = TConnect /\ v.ep = h.ep, ~ok, "own CONNECT accepted")
  \o Ob("C12", du # <<>>, \A j \in 1..Len(du) : Cand(du[j]) = {} \/ any \/ \E q \in Cand(du[j]) :
          \/ m2.rx[q].wi = 0
          \/ ~ByOther(ws[m2.rx[q].wi], h.ep)
          \/ \E b \in ws[m2.rx[q].wi].by : hs[b].h.me = m.ad, "delivered data of one identity under the name of another")
  \* ---- C13
  \o Ob("C13", wrU /\ ok /\ hasO, ov.f = 2 /\ e.lk = 0, "user data in clear")
  \o Ob("C13", wrU /\ ok /\ hasO /\ c.sy /\ ~sink, IF refPeer THEN ov.k = h.key ELSE ov.k = NoKey \/ ov.k = h.key, "not encrypted under the session secret")
  \o Ob("C13", wrU /\ ok /\ hasO /\ c.sy /\ e.ks \in DOMAIN kst, kst[e.ks] = h.key, "key stream shared by two sessions")
  \o Ob("C13", (Kf("KF-C13-keystream-messages") \/ Kf("KF-C13-keystream-directions")) /\ wrU /\ ok /\ hasO, e.ks \notin DOMAIN kst, "key stream used for two messages of a session")
  \o Ob("C13", wrU /\ ~ok /\ ~flt /\ Get(e, "sp", 0) = 1 /\ h.key = NoKey, FALSE, "user data written without a session secret")
  \* ---- C14
  \o Ob("C14", TRUE, e.r # "PANIC", "panic")
  \* ---- C15
  \o Ob("C15", wrC /\ ok /\ hasO /\ c.sy, ConnectLayout(ov, ov.ep, h.me), "CONNECT is not laid out as documented")
  \o Ob("C15", wrA /\ ok /\ hasO /\ c.sy /\ h.pe # 0, AckLayout(ov, h.pe, h.me), "ACK is not laid out as documented")
  \o Ob("C15", wrU /\ ok /\ hasO /\ c.sy /\ refPeer, UserLayout(ov, h.key, h.sent), "user message is not laid out as documented")
  \o Ob("C15", (op \in {"con", "ack", "wr"}) /\ ok /\ hasO /\ c.sy /\ (wrU => refPeer), Carries(h, ov, e.d), "content is not laid out as documented")
  \o Ob("C15", sy /\ hasV /\ x.r = "ok" /\ v.wi = 0, e.r \notin FramingErrors, "documented message of an independent peer not understood")
  \o Ob("C15", sy /\ hasV /\ x.r = "ok" /\ v.wi = 0 /\ x.dn # <<>>, ok /\ DnEq(x.dn, dn), "documented message of an independent peer not understood")
  \o Ob("C15", sy /\ hasV /\ x.r \in FramingErrors, ~ok, "undocumented message understood")
  \* ---- C16
  \o Ob("C16", h.md = 1 /\ sy /\ isRd /\ x.r = "ok" /\ op = "rd" /\ (x.dn # <<>> \/ x.du # <<>>), e.r # "ZipError" /\ (ok => DnEq(x.dn, dn) /\ DuEq(x.du, du)), "content altered")
  \o Ob("C16", h.md = 1 /\ ok /\ hasO /\ c.sy /\ op \in {"con", "ack", "wr"} /\ (wrU => refPeer), ov.zb = e.d, "content altered")
  \o Ob("C16", h.md = 1 /\ op \in {"con", "ack", "wr"} /\ sy /\ x.r = "ok" /\ ~flt, ok, "content refused")
  \* ---- C17
  \o Ob("C17", op \in {"tr", "tw"} /\ sy, e.r = x.r \/ flt, "wrong outcome of a typed call")
  \o Ob("C17", op = "tr" /\ sy /\ x.r = "ok" /\ ok, DnEq(x.dn, dn) /\ DuEq(x.du, du), "wrong typed value")
  \o Ob("C17", op = "tw" /\ ok /\ hasO /\ c.sy /\ (wrU => refPeer), IF e.t = 0 /\ ~wrU THEN ov.bl = 0 ELSE ov.fm = h.fmt /\ ov.tv = e.t, "typed value not written as announced")
  \* ---- C18
  \o Ob("C18", op \in {"cl", "cfg"} /\ sy, e.r = x.r, "wrong outcome of cloning or configuring")
  \o Ob("C18", h.cln /\ sy, (x.r = "ok") = ok /\ same, "a clone does not behave as its original")
  \o Ob("C18", h.cln /\ c.sy /\ wrU /\ ok /\ hasO /\ refPeer, ov.n = h.sent /\ ov.k = h.key, "a clone does not write what its original would")
  \* ---- C19
  \o Ob("C19", sink /\ ok, e.flt = 0 /\ ((e.pfx = 1 /\ hasO) \/ e.ffl = 1), "success although the message is not on the writer")
  \o Ob("C19", sink /\ ok /\ hasO /\ c.sy, CASE wrC -> ConnectLayout(ov, ov.ep, h.me) [] wrA -> AckLayout(ov, h.pe, h.me)
                     [] OTHER -> ov.f = 2 /\ (refPeer => UserLayout(ov, h.key, h.sent)), "success although the message on the writer is not whole")
  \o Ob("C19", sink /\ ok /\ hasO /\ c.sy /\ op # "tw" /\ (wrU => refPeer), Carries(h, ov, e.d), "success although the content on the writer is not whole")
  \o Ob("C19", flt, ~ok, "writer failure not reported")
  \o Ob("C19", sink /\ ~flt /\ sy /\ x.r = "ok", ok, "failure reported although the writer accepted everything")
  \o Ob("C19", m.wf /\ (wrU \/ wrC \/ wrA \/ op = "cl") /\ x.r # "ok" /\ c.sy, ~ok, "used after a failed write")
  \o Ob("C19", m.wf /\ wrC /\ m.oC > 0, ~ok, "CONNECT issued twice")
  \o Ob("C19", m.wf /\ wrA /\ m.oA > 0, ~ok, "ACK issued twice")
  \o Ob("C19", m.wf /\ sy, same, "a failed write had another effect than documented")
  \* ---- C20
  \o Ob("C20", wrC /\ m.oC > 0, ~ok, "CONNECT issued twice")
  \o Ob("C20", wrA /\ m.oA > 0, ~ok, "ACK issued twice")
  \o Ob("C20", (wrC \/ wrA) /\ h.cl, ~ok, "a clone negotiates")
  \o Ob("C20", wrU /\ ok /\ hasO /\ ov.k # NoKey, ov.n = m.wn, "wrong message number")
  \* ---- C21
  \o Ob("C21", wrC /\ ok /\ hasO, ov.ep = h.ep, "ephemeral key not of its own")
  \o Ob("C21", wrU /\ ok /\ hasO /\ c.sy /\ refPeer, ov.k = h.key, "secret not shared with the peer")
  \o Ob("C21", sy /\ hasV /\ v.f = 2 /\ v.k = h.key /\ h.key # NoKey, e.r # "FailToDecryptData", "secret not shared with the peer")
  \o Ob("C21", sy /\ hasV /\ v.f = 2 /\ v.k # h.key /\ v.k # NoKey /\ h.key # NoKey, ~ok, "secret shared with another session")
  \o Ob("C21", sy /\ op = "bulk" /\ e.k = h.key, \A j \in 1..Len(e.outs) : e.outs[j].s # "FailToDecryptData", "secret not shared with the peer")
  \o Ob("C21", hasV /\ v.f = 1 /\ v.ty = TConnect /\ IsLow(v.ep), ~ok, "degenerate key accepted")
  \o Ob("C21", IsLow(h.pe) /\ (wrU \/ wrC \/ wrA \/ op = "cl"), ~ok, "goes on after a degenerate key")
  \o Ob("C21", dn # <<>> /\ m2.rC # <<>> /\ m2.rA # <<>>,
        \A j \in 1..Len(m2.rA) : m2.rA[j].wi \in DOMAIN ws =>
             \/ ws[m2.rA[j].wi].key = x.h.key
             \/ \E q \in DOMAIN hs : hs[q].h.ep = m2.rC[Len(m2.rC)].ep /\ hs[q].h.key = x.h.key, "completed with a peer that holds another secret")
  \* ---- C22
  \o Ob("C22", sy /\ ~many, (x.r = "ok" /\ ok) \/ e.r = x.r \/ (flt /\ ~ok), "another outcome than the documented one")
  \o Ob("C22", sy /\ many, BulkEq(x.du, e.outs), "another outcome than the documented one")
  \* ---- many calls at once
  \o Ob("C20", op = "bw" /\ \E j \in 1..Len(e.outs) : e.outs[j].s = "ok", e.n0 = m.wn /\ \A j \in 1..Len(e.outs) : e.outs[j].s # "misnumbered", "wrong message number")
  \o Ob("C13", op = "bw" /\ sy /\ h.st = "S", \A j \in 1..Len(e.outs) : e.outs[j].s # "unreadable", "not encrypted under the session secret")
  \o Ob("C15", op = "bw" /\ sy /\ h.st = "S", BulkEq(x.du, e.outs), "user messages are not laid out as documented")
  \o Ob("C05", op = "bw" /\ sy /\ m.clean /\ h.st = "S", BulkEq(x.du, e.outs), "negotiated, but messages cannot be written")
  \o Ob("C04", op = "bw" /\ ~nego, \A j \in 1..Len(e.outs) : e.outs[j].s \notin {"ok", "unreadable", "altered", "misnumbered"}, "user data written before the end of the negotiation")
  \o Ob("C06", many /\ sy /\ h.st = "F", BulkEq(x.du, e.outs), "a failed layer was used")
  \o Ob("C18", many /\ sy /\ h.cln, BulkEq(x.du, e.outs), "a clone does not behave as its original")
  \o Ob("C07", op = "br" /\ sy /\ x.h = h /\ x.du[1].s \in Rejections, BulkEq(x.du, e.outs), "the outcome depends on rejected messages")
  \o Ob("C08", op = "br" /\ sy /\ x.du[1].s = "InvalidNonce", \A j \in 1..Len(e.outs) : e.outs[j].s # "ok", "replay accepted")
  \o Ob("C01", op = "br" /\ sy /\ x.du[1].s = "UnexpectedRemoteSigPubKey", \A j \in 1..Len(e.outs) : e.outs[j].s # "ok", "foreign identity accepted")
  \o Ob("C02", op = "br" /\ sy /\ v.f = 1 /\ v.ty # TUser /\ x.du[1].s \in {"InvalidHashOrSig", "UnexpectedRemoteSigPubKey"}, \A j \in 1..Len(e.outs) : e.outs[j].s # "ok", "unproven negotiation message accepted")
  \o Ob("C03", op = "br" /\ sy /\ x.du[1].s = "InvalidChallenge", \A j \in 1..Len(e.outs) : e.outs[j].s # "ok", "ACK for another key accepted")
  \o Ob("C11", op = "br" /\ sy /\ v.f = 2 /\ x.du[1].s \in {"InvalidHashOrSig", "FailToDecryptData"}, \A j \in 1..Len(e.outs) : e.outs[j].s # "ok", "altered user message accepted")
  \* ---- C23
  \o Ob("C23", wrC /\ ok /\ hasO, ov.pk = h.me /\ ov.sg = h.me /\ Get(e, "ia", 1) = 1, "CONNECT under another identity than the layer's")
  \o Ob("C23", wrA /\ ok /\ hasO, ov.sg = h.me, "ACK under another identity than the layer's")
  \* ---- C24
  \o Ob("C24", "so" \in DOMAIN e, SameRun(e, e.so), "the outcome depends on another layer")
  \o Ob("C24", "wa" \in DOMAIN e, SameRun(e, e.wa), "the outcome depends on the thread in which the calls are made")
  \o Ob("C24", "si" \in DOMAIN e, SameRun(e, e.si), "the outcome is another one in a process of its own")
  \* ---- C26: a crate compiled with another set of features (ft: the formats it knows)
  \o Ob("C26", var /\ sy /\ ~many, (x.r = "ok" /\ ok) \/ e.r = x.r \/ (flt /\ ~ok), "another outcome under this set of features")
  \o Ob("C26", var /\ sy /\ isRd /\ ok, DnEq(x.dn, dn) /\ DuEq(x.du, du), "another report under this set of features")
  \o Ob("C26", var /\ sy /\ many, BulkEq(x.du, e.outs), "another outcome under this set of features")
  \o Ob("C26", var /\ c.sy /\ ok /\ hasO /\ ~sink /\ (wrU => refPeer),
        /\ CASE wrC -> ConnectLayout(ov, ov.ep, h.me) [] wrA -> h.pe = 0 \/ AckLayout(ov, h.pe, h.me) [] OTHER -> UserLayout(ov, h.key, h.sent)
        /\ IF op = "tw" THEN IF e.t = 0 /\ ~wrU THEN ov.bl = 0 ELSE ov.fm = h.fmt /\ ov.tv = e.t ELSE Carries(h, ov, e.d),
        "other bytes on the wire under this set of features")
  \* ---- C27: fr: blocks freed with a secret in them, lv: sessions whose secret is in memory the crate has not freed
  \o Ob("C27", "fr" \in DOMAIN e /\ op = "drop", e.fr = 0, "the secret of a session is left where a dropped layer was")
  \o Ob("C27", "fr" \in DOMAIN e /\ op # "drop", e.fr = 0, "a secret is left in memory that was given back")
  \o Ob("C27", "lv" \in DOMAIN e, \A j \in 1..Len(e.lv) : \E q \in DOMAIN hs : q # n /\ ~hs[q].m.gone /\ (hs[q].h.key = <<e.lv[j][1], e.lv[j][2]>> \/ ~hs[q].sy),
        "the secret of a session outlives the layers that hold it")
  \o Ob("C27", op = "drop", ok, "a layer cannot be dropped")
  \o Ob("C27", op # "drop" /\ sy /\ ~many /\ (\E q \in DOMAIN hs : hs[q].m.gone), (x.r = "ok") = ok \/ flt, "dropping a layer has changed another one")
  \* ---- C25
  \o Ob("C25", (wrU \/ wrC \/ wrA) /\ ~ok /\ ~flt, Get(e, "sp", 0) = 0, "a refused call left bytes on the writer")

----------------------------------------------------------------------------
RECURSIVE Written(_, _)
Written(o, j) == IF j > Len(o) THEN 0 ELSE (IF o[j].s \in {"ok", "altered", "misnumbered", "unreadable"} THEN o[j].c ELSE 0) + Written(o, j + 1)

Hist(c, e, v, x, any) ==
  LET m == c.m   h == c.h   op == e.op   ok == e.r = "ok"
      isRd == op \in {"rd", "tr", "tk", "dr"}
      dn == IF isRd /\ ok THEN e.dn ELSE <<>>
      du == IF isRd /\ ok THEN e.du ELSE <<>>
      hasV == op \in {"rd", "tr"}
      flt == Get(e, "flt", 0) = 1
      wrC == op = "con" \/ (op = "tw" /\ e.k = "C")
      wrA == op = "ack" \/ (op = "tw" /\ e.k = "A")
      wrU == op = "wr" \/ (op = "tw" /\ e.k = "U")
      hasC == \E j \in 1..Len(dn) : dn[j].k = "C"
      hasA == \E j \in 1..Len(dn) : dn[j].k = "A"
      srcA == IF hasV /\ v.ty = TAck THEN <<v>> ELSE m.as
  IN [m EXCEPT
        !.ad = IF hasC /\ @ = 0 THEN dn[1].pk ELSE @,
        !.oC = IF wrC /\ (ok \/ (flt /\ x.r = "BufferFlushError")) THEN @ + 1 ELSE @,
        !.oA = IF wrA /\ (ok \/ (flt /\ x.r = "BufferFlushError")) THEN @ + 1 ELSE @,
        !.rC = IF hasC THEN Append(@, v) ELSE @,
        !.rA = IF hasA THEN @ \o srcA ELSE @,
        !.as = IF hasV /\ ok /\ v.ty = TAck /\ ~hasA THEN <<v>> ELSE @,
        !.rx = IF hasV /\ (v.ty = TUser \/ v.f = 2) THEN Append(@, v) ELSE @,
        !.bx = IF op = "bulk" THEN Append(@, [lo |-> e.lo, hi |-> e.hi, st |-> e.st, cb |-> e.cb]) ELSE @,
        !.dl = IF Len(du) > 100 THEN @ ELSE @ \o [j \in 1..Len(du) |-> Tag(op, du[j])],
        !.wn = IF wrU /\ ok THEN @ + 1 ELSE IF op = "bw" THEN @ + Written(e.outs, 1) ELSE @,
        !.clean = @ /\ (x.r = "ok") /\ ~any /\ ~flt,
        !.wf = @ \/ flt,
        !.gone = @ \/ op = "drop"]

AddCounts(obs) == [p \in 1..Len(Props) |-> cnt[p] + Cardinality({j \in 1..Len(obs) : obs[j].p = Props[p]})]
NewViol(obs) == LET bad == SelectSeq(obs, LAMBDA o : ~o.ok)
                IN [j \in 1..Len(bad) |-> [p |-> bad[j].p, why |-> bad[j].why, ev |-> i]]

\* a written wire gets its meaning from the specification state of its writer
Meant(h, e, ov) ==
  LET d == Get(e, "d", 0) IN
  IF ov.f = 2 /\ ov.k = NoKey
  THEN [UserView(h.key, h.sent, TRUE, d) EXCEPT !.w = e.o, !.wi = e.o, !.bl = IF d = 1 /\ h.md = 0 THEN 0 ELSE 1,
          !.b = IF d = 1 /\ h.md = 0 THEN 0 ELSE d, !.fm = IF e.op = "tw" THEN h.fmt ELSE -1, !.tv = IF e.op = "tw" THEN e.t ELSE -1]
  ELSE ov

Formats == IF "ft" \in DOMAIN Traces[tr] THEN {Traces[tr].ft[j] : j \in 1..Len(Traces[tr].ft)} ELSE AllFormats

NewEvent(e) ==
  /\ hs' = IF e.r = "ok" THEN hs @@ (e.h :> [h |-> [NewHandle(e.md, e.me, e.pin, e.ep, e.fmt) EXCEPT !.fts = Formats], sy |-> TRUE, m |-> M0(e.pin)]) ELSE hs
  /\ LET obs == Ob("C14", TRUE, e.r # "PANIC", "panic") \o Ob("C22", TRUE, e.r = "ok", "a layer could not be created")
     IN viol' = viol \o NewViol(obs) /\ cnt' = AddCounts(obs)
  /\ UNCHANGED <<ws, kst>>

\* seeds that were dropped
SeedEvent(e) ==
  /\ LET obs == Ob("C27", TRUE, e.fr = 0, "a seed is left where it was dropped") \o Ob("C23", TRUE, e.r = "ok", "a seed is not the bytes it was made of")
     IN viol' = viol \o NewViol(obs) /\ cnt' = AddCounts(obs)
  /\ UNCHANGED <<hs, ws, kst>>

CallEvent(e, id) ==
  LET c == hs[e.h]
      v == IF e.op \in {"rd", "tr", "br"} THEN Meaning(e.v) ELSE BaseView
      x == Spec(c.h, e, v)
      any == AnyResult(c.h, e, v)
      xs == IF any THEN ReadAny(c.h, v) ELSE x
      m2 == Hist(c, e, v, x, any)
      obs == Obligations(e.h, c, e, v, x, any, m2, id)
      isRd == e.op \in {"rd", "tr", "tk", "dr"}
      match == IF any THEN TRUE
               ELSE IF e.op = "bulk" THEN BulkEq(x.du, e.outs) /\ BulkDefined(c.h, e)
               ELSE IF e.op = "bw" THEN BulkEq(x.du, e.outs)
               ELSE IF e.op = "br" THEN BulkEq(x.du, e.outs) /\ BulkSame(c.h, v, e.c).exact
               ELSE (x.r = "ok") = (e.r = "ok") /\ (e.r = "ok" /\ isRd => DnEq(x.dn, e.dn) /\ DuEq(x.du, e.du))
      h2 == IF any THEN (IF e.op \in {"tk", "dr"} THEN x.h ELSE xs.h)
            ELSE IF match \/ e.r = "ok" THEN x.h
            ELSE IF x.h.st = "F" THEN x.h ELSE c.h
      c2 == [h |-> h2, sy |-> c.sy /\ match, m |-> m2]
      hs1 == [hs EXCEPT ![e.h] = c2]
      ov == IF "ov" \in DOMAIN e THEN ViewOf(e.ov) ELSE BaseView
      o == Get(e, "o", 0)
  IN
  /\ hs' = IF e.op = "cl" /\ e.r = "ok" THEN hs1 @@ (e.to :> [c2 EXCEPT !.h = CloneOf(c2.h)]) ELSE hs1
  /\ ws' = IF o = 0 THEN ws
           ELSE IF o \in DOMAIN ws THEN [ws EXCEPT ![o].by = @ \cup {e.h}]
           ELSE ws @@ (o :> [v |-> Meant(c.h, e, ov), by |-> {e.h}, key |-> c.h.key])
  /\ kst' = IF "ks" \in DOMAIN e /\ c.sy /\ e.ks \notin DOMAIN kst THEN kst @@ (e.ks :> c.h.key) ELSE kst
  /\ viol' = viol \o NewViol(obs)
  /\ cnt' = AddCounts(obs)

Init == /\ tr \in 1..Len(Traces) /\ i = 1
        /\ hs = <<>> /\ ws = <<>> /\ kst = <<>> /\ viol = <<>>
        /\ cnt = [p \in 1..Len(Props) |-> 0]

Step == LET t == Traces[tr] IN
  /\ i <= Len(t.ev)
  /\ LET e == t.ev[i] IN CASE e.op = "new" -> NewEvent(e) [] e.op = "seed" -> SeedEvent(e) [] OTHER -> CallEvent(e, t.id)
  /\ i' = i + 1 /\ tr' = tr

Report == LET t == Traces[tr] IN
  /\ i = Len(t.ev) + 1
  /\ PrintT(ToJson([trace |-> t.id, n |-> Len(t.ev), cnt |-> cnt, viol |-> viol]))
  /\ i' = i + 1 /\ UNCHANGED <<tr, hs, ws, kst, viol, cnt>>

Next == Step \/ Report
TraceSpec == Init /\ [][Next]_vars

View == <<tr, i>>
StatesOK == \A n \in DOMAIN hs : hs[n].sy => TypeOK(hs[n].h)
==============================================================================
