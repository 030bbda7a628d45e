----------------------------- MODULE PkstlLayer ------------------------------
(***************************************************************************)
(* One handle of a secure layer: its state and, for every public call, the *)
(* result and the next state.  Pure operators, shared by the models that   *)
(* are explored (PkstlOne, PkstlNet, ...) and by trace validation          *)
(* (PkstlTrace).                                                           *)
(***************************************************************************)
EXTENDS PkstlWire, PkstlRuns, FiniteSets

CONSTANT MaxOrphans     \* 10,000 in the implementation

(***************************************************************************)
(* st   "N" negotiating, "S" negotiated, "F" failed                        *)
(* lo   local thread:  0 created, 1 CONNECT issued, 2 peer's ACK accepted  *)
(* re   remote thread: 0 waiting, 1 peer's CONNECT accepted, 2 ACK issued  *)
(* md   0: minimal layer, 1: complete layer (compression, signing inside)  *)
(* me   own identity     pin  expected or adopted identity of the peer     *)
(* ep   own ephemeral key    pe  the peer's    key  session key            *)
(* sent number of the next message written                                 *)
(* nx   lowest number not received    orp  numbers received above it       *)
(* aside  ACK set aside because the peer is not known yet                  *)
(* stk  user messages held until the negotiation completes                 *)
(* cln  has been cloned or is a clone (configuration frozen)               *)
(* cl   is a clone           fmt  configured message format                *)
(* fts  message formats the crate was compiled with                        *)
(***************************************************************************)
AllFormats == 0..4
NewHandle(md, me, pin, ep, fmt) ==
  [st |-> "N", lo |-> 0, re |-> 0, md |-> md, me |-> me, pin |-> pin, ep |-> ep, pe |-> 0,
   key |-> NoKey, sent |-> 0, nx |-> 0, orp |-> <<>>, aside |-> <<>>, stk |-> <<>>,
   cln |-> FALSE, cl |-> FALSE, fmt |-> fmt, fts |-> AllFormats]

\* dn: reported CONNECT/ACK; du: entries of delivered user messages
Res(h, r, dn, du) == [h |-> h, r |-> r, dn |-> dn, du |-> du]
Ok(h)       == Res(h, "ok", <<>>, <<>>)
Rej(h, e)   == Res(h, e, <<>>, <<>>)                        \* refused, nothing changes
Fatal(h, e) == Res([h EXCEPT !.st = "F"], e, <<>>, <<>>)    \* refused, the layer fails

Content(h, v) == IF h.md = 1 THEN v.zb ELSE v.b

\* a user message (or a run of them, numbered lo, lo+st, .., hi with contents d, d+st, ..)
Entry(h, v) == [lo |-> v.n, hi |-> v.n, st |-> 1, d |-> Content(h, v), hs |-> v.hs,
                bl |-> v.bl, fm |-> v.fm, tv |-> v.tv]
EntryLen(e) == RunLen(e)

----------------------------------------------------------------------------
(* Issuing *)

CreateConnect(h) ==
  CASE h.st = "F" -> Rej(h, "ConnectionHadFail")
    [] h.st = "N" /\ h.lo = 0 -> Ok([h EXCEPT !.lo = 1])
    [] OTHER -> Rej(h, "ConnectMsgAlreadyWritten")

CreateAck(h) ==
  CASE h.st = "F" -> Rej(h, "ConnectionHadFail")
    [] h.st = "N" /\ h.re = 1 /\ h.lo = 2 -> Ok([h EXCEPT !.st = "S", !.re = 2])
    [] h.st = "N" /\ h.re = 1 -> Ok([h EXCEPT !.re = 2])
    [] OTHER -> Rej(h, "ForbidWriteAckMsgNow")

\* a clone of a complete layer has no signature key
NegoCall(h, op) ==
  IF h.md = 1 /\ h.cl THEN Rej(h, "ConnectMsgAlreadyWritten")
  ELSE IF op = "con" THEN CreateConnect(h) ELSE CreateAck(h)

WriteUser(h) ==
  CASE h.st = "F" -> Rej(h, "ConnectionHadFail")
    [] h.st = "N" -> Fatal(h, "NegoMustHaveBeenSuccessful")
    [] OTHER -> Ok([h EXCEPT !.sent = h.sent + 1])

\* a writer that fails while user data is written fails the layer; a CONNECT or ACK counts as issued
WriterFault(h, op, x) ==
  IF x.r # "ok" THEN x
  ELSE IF op = "wr" THEN Fatal([h EXCEPT !.sent = h.sent], "FailToEncryptData")
  ELSE Res(x.h, "BufferFlushError", <<>>, <<>>)

\* typed writing: formats 2 (JSON), 3 (CBOR), 4 (Bincode) only; data absent (t = 0) needs no format
\* values 12001.. are maps whose keys are no strings: JSON cannot express them
Unwritable(fmt, t) == fmt = 2 /\ t \in 12001..12999
TypedCall(h, kind, t) ==
  IF h.fmt \notin {2, 3, 4} /\ (t # 0 \/ kind = "U") THEN Rej(h, "SerdeError_UseSuffixedBinFunctions")
  ELSE IF Unwritable(h.fmt, t) THEN Rej(h, "SerdeError_JsonError")
  ELSE CASE kind = "C" -> NegoCall(h, "con")
         [] kind = "A" -> NegoCall(h, "ack")
         [] OTHER -> WriteUser(h)

----------------------------------------------------------------------------
(* Receiving one message *)

ReadConnect(h, v) ==
  IF h.pin # 0 /\ v.pk # h.pin THEN Rej(h, "UnexpectedRemoteSigPubKey")
  ELSE IF v.sg # v.pk THEN Rej(h, "InvalidHashOrSig")
  ELSE IF v.ep = h.ep THEN Fatal(h, "UnexpectedConnectMsg")
  ELSE LET g == [h EXCEPT !.pin = v.pk] IN
    IF g.st = "F" THEN Rej(g, "ConnectionHadFail")
    ELSE IF g.st = "S" \/ g.re # 0 THEN Fatal(g, "UnexpectedConnectMsg")
    ELSE IF IsLow(v.ep) THEN Fatal([g EXCEPT !.re = 1, !.pe = v.ep], "FailToComputeAgreement")
    ELSE Res([g EXCEPT !.re = 1, !.pe = v.ep, !.key = KeyOf(h.ep, v.ep)], "ok",
             <<[k |-> "C", pk |-> v.pk, d |-> Content(h, v), v |-> v]>>, <<>>)

ReadAck(h, v) ==
  IF v.ch # h.ep THEN Rej(h, "InvalidChallenge")
  ELSE IF h.pin = 0 THEN
    IF h.aside = <<>> THEN Ok([h EXCEPT !.aside = <<v>>])
    ELSE Fatal(h, "UnexpectedAckMsg")
  ELSE IF v.sg # h.pin THEN Rej(h, "InvalidHashOrSig")
  ELSE IF h.st = "F" THEN Rej(h, "ConnectionHadFail")
  ELSE IF h.st = "S" \/ h.lo # 1 THEN Fatal(h, "UnexpectedAckMsg")
  ELSE Res(IF h.re = 2 THEN [h EXCEPT !.st = "S", !.lo = 2] ELSE [h EXCEPT !.lo = 2], "ok",
           <<[k |-> "A", pk |-> 0, d |-> Content(h, v), v |-> v]>>, <<>>)

Seen(h, n) == n < h.nx \/ Has(h.orp, n)

\* e: entry of one message
ReadUserEntry(h, e) ==
  LET n == e.lo IN
  IF Seen(h, n) THEN Rej(h, "InvalidNonce")
  ELSE IF h.st = "F" THEN Rej(h, "ConnectionHadFail")
  ELSE IF h.st = "N" THEN
    IF h.lo = 1 /\ h.re = 2
    THEN IF CountUpTo(h.stk, Len(h.stk)) >= MaxOrphans THEN Fatal(h, "TooManyUnorderedMsgs")
         ELSE Ok([h EXCEPT !.stk = Append(h.stk, e)])
    ELSE Fatal(h, "UnexpectedMessage")
  ELSE IF ~e.hs THEN Rej(h, "InvalidHashOrSig")
  ELSE IF n = h.nx
    THEN LET a == Absorb(n + 1, h.orp) IN Res([h EXCEPT !.nx = a.nx, !.orp = a.rs], "ok", <<>>, <<e>>)
  ELSE IF Count(h.orp) >= MaxOrphans THEN Fatal(h, "TooManyUnorderedMsgs")
  ELSE Res([h EXCEPT !.orp = Add(h.orp, n)], "ok", <<>>, <<e>>)

ReadMin(h, v) ==
  LET p == Parse(v, h.key) IN
  IF p # "ok" THEN Fatal(h, p)
  ELSE CASE v.ty = TConnect -> ReadConnect(h, v)
         [] v.ty = TAck     -> ReadAck(h, v)
         [] OTHER           -> ReadUserEntry(h, Entry(h, v))

TakeAck(h) ==
  IF h.aside = <<>> THEN Ok(h)
  ELSE ReadMin([h EXCEPT !.aside = <<>>], h.aside[1])

----------------------------------------------------------------------------
(* Runs of user messages, numbered lo, lo+st, .., hi, all openable with k and with a right hash.
   Result: outs, a sequence of [s |-> outcome, c |-> how many]                              *)

Out(s, c) == IF c = 0 THEN <<>> ELSE <<[s |-> s, c |-> c]>>

\* consumes a run in state S: ok, how many are delivered
RECURSIVE RunInS(_, _)
RunInS(h, e) ==
  LET n  == EntryLen(e)
      \* the part of the run that is in order
      k0 == IF e.lo = h.nx THEN (IF e.st = 1 THEN n ELSE 1) ELSE 0
      a  == IF k0 = 0 THEN [nx |-> h.nx, rs |-> h.orp] ELSE Absorb(e.lo + (k0 - 1) * e.st + 1, h.orp)
      g0 == [h EXCEPT !.nx = a.nx, !.orp = a.rs]
      rest == n - k0
      room == MaxOrphans - Count(a.rs)
      k1 == IF rest <= room THEN rest ELSE room
      lo1 == e.lo + k0 * e.st
      rs1 == IF k1 = 0 THEN a.rs
             ELSE IF k1 = 1 THEN Add(a.rs, lo1)
             ELSE Append(a.rs, [lo |-> lo1, hi |-> lo1 + (k1 - 1) * e.st, st |-> e.st])
      g == [h EXCEPT !.nx = a.nx, !.orp = rs1]
      outs(k) == IF k = n THEN Out("del", n)
                 ELSE Out("del", k) \o Out("TooManyUnorderedMsgs", 1) \o Out("ConnectionHadFail", n - k - 1)
  IN IF rest > 0 /\ k0 > 0 /\ lo1 = a.nx
     \* what was ahead lies between the numbers of the run
     THEN LET r == RunInS(g0, [e EXCEPT !.lo = lo1]) IN [h |-> r.h, ok |-> k0 + r.ok, outs |-> outs(k0 + r.ok)]
     ELSE IF rest > k1
     THEN [h |-> [g EXCEPT !.st = "F"], ok |-> k0 + k1, outs |-> outs(k0 + k1)]
     ELSE [h |-> g, ok |-> n, outs |-> outs(n)]

Bulk(h, k, e) ==
  LET n == EntryLen(e) IN
  IF h.key = NoKey THEN [h |-> [h EXCEPT !.st = "F"], outs |-> Out("UnexpectedMessage", n)]
  ELSE IF k # h.key THEN [h |-> [h EXCEPT !.st = "F"], outs |-> Out("FailToDecryptData", n)]
  ELSE IF e.hi < h.nx \/ Inside(h.orp, e.lo, e.hi, e.st) THEN [h |-> h, outs |-> Out("InvalidNonce", n)]
  ELSE IF h.st = "F" THEN [h |-> h, outs |-> Out("ConnectionHadFail", n)]
  ELSE IF h.st = "S" THEN LET r == RunInS(h, e) IN [h |-> r.h, outs |-> r.outs]
  ELSE IF h.lo = 1 /\ h.re = 2
  THEN LET room == MaxOrphans - CountUpTo(h.stk, Len(h.stk))
           k1 == IF n <= room THEN n ELSE room
           g == [h EXCEPT !.stk = IF k1 = 0 THEN @ ELSE Append(@, [e EXCEPT !.hi = e.lo + (k1 - 1) * e.st])]
       IN IF n > k1
          THEN [h |-> [g EXCEPT !.st = "F"],
                outs |-> Out("held", k1) \o Out("TooManyUnorderedMsgs", 1) \o Out("ConnectionHadFail", n - k1 - 1)]
          ELSE [h |-> g, outs |-> Out("held", n)]
  ELSE [h |-> [h EXCEPT !.st = "F"], outs |-> Out("UnexpectedMessage", 1) \o Out("ConnectionHadFail", n - 1)]

\* n user messages written one after the other
BulkWrite(h, n) ==
  LET x == WriteUser(h) IN
  IF x.r = "ok" THEN [h |-> [h EXCEPT !.sent = @ + n], outs |-> Out("ok", n)]
  ELSE IF x.h = h THEN [h |-> h, outs |-> Out(x.r, n)]
  ELSE [h |-> x.h, outs |-> Out(x.r, 1) \o Out("ConnectionHadFail", n - 1)]

\* bulk runs must be either new or already seen as a whole, so that Bulk is exact
BulkDefined(h, e) ==
  \/ h.key = NoKey
  \/ e.hi < h.nx \/ Inside(h.orp, e.lo, e.hi, e.st)
  \/ (e.lo >= h.nx /\ Disjoint(h.orp, e.lo, e.hi, e.st))

----------------------------------------------------------------------------
(* Held messages *)

DrainStep(acc, e) ==
  IF acc.err # "" THEN acc
  ELSE IF e.lo = e.hi
  THEN LET x == ReadUserEntry(acc.h, e) IN
       CASE x.r = "ok" -> [acc EXCEPT !.h = x.h, !.du = @ \o x.du]
         [] x.r \in {"InvalidNonce", "InvalidHashOrSig"} -> acc      \* dropped, the others go on
         [] OTHER -> [acc EXCEPT !.h = x.h, !.err = x.r]
  ELSE IF acc.h.st = "S"
  THEN IF e.hi < acc.h.nx \/ Inside(acc.h.orp, e.lo, e.hi, e.st) THEN acc
       ELSE LET r == RunInS(acc.h, e) IN
         IF r.ok = EntryLen(e) THEN [acc EXCEPT !.h = r.h, !.du = Append(@, e)]
         ELSE [acc EXCEPT !.h = r.h, !.err = "TooManyUnorderedMsgs"]
  ELSE IF acc.h.st = "F" THEN [acc EXCEPT !.err = "ConnectionHadFail"]
  ELSE [acc EXCEPT !.h.stk = Append(@, e)]

RECURSIVE DrainAll(_, _, _)
DrainAll(acc, s, i) == IF i > Len(s) THEN acc ELSE DrainAll(DrainStep(acc, s[i]), s, i + 1)

Drain(h) ==
  LET a == DrainAll([h |-> [h EXCEPT !.stk = <<>>], du |-> <<>>, err |-> ""], h.stk, 1) IN
  IF a.err = "" THEN Res(a.h, "ok", <<>>, a.du) ELSE Rej(a.h, a.err)

----------------------------------------------------------------------------
(* Complete layer: a CONNECT releases the ACK set aside, an ACK releases the held messages *)

Irregular(d) == d = -1

ReadFull(h, v) ==
  LET x == ReadMin(h, v) IN
  IF x.r # "ok" \/ x.dn = <<>> THEN x
  ELSE IF x.dn[1].k = "C" THEN
    LET y == TakeAck(x.h) IN
    IF y.r = "InvalidHashOrSig" THEN Res(y.h, "ok", x.dn, <<>>)
    ELSE IF y.r # "ok" THEN y
    ELSE Res(y.h, "ok", x.dn \o y.dn, <<>>)
  ELSE LET y == Drain(x.h) IN
    IF y.r # "ok" THEN y ELSE Res(y.h, "ok", x.dn, y.du)

ReadAny(h, v) == IF h.md = 1 THEN ReadFull(h, v) ELSE ReadMin(h, v)

\* the same bytes n times, where the second time has no effect any more
BulkSame(h, v, n) ==
  LET x == ReadAny(h, v)  y == ReadAny(x.h, v) IN
  [h |-> y.h, outs |-> IF x.r = y.r THEN Out(x.r, n) ELSE Out(x.r, 1) \o Out(y.r, n - 1), exact |-> ReadAny(y.h, v).h = y.h]

\* content that is not a deflate stream: the layer's state is unaffected but the report is unspecified
Unspecified(h, x) ==
  h.md = 1 /\ x.r = "ok" /\ (\/ \E i \in 1..Len(x.dn) : Irregular(x.dn[i].d)
                             \/ \E i \in 1..Len(x.du) : x.du[i].lo = x.du[i].hi /\ Irregular(x.du[i].d))

\* Typed reading of one content: the format is announced by the message itself
FormatError(fm) == CASE fm = 2 -> "SerdeError_JsonError" [] fm = 3 -> "SerdeError_CborError"
                     [] OTHER -> "SerdeError_BincodeError"
TypedVerdict(h, c) ==
  IF c.bl = 0 THEN "ok"
  ELSE IF c.fm = -1 THEN "MessageTooShort"
  ELSE IF c.fm \notin h.fts THEN "UnknownMessageFormat"
  ELSE IF c.fm \in {0, 1} THEN "SerdeError_UseSuffixedBinFunctions"
  ELSE IF c.tv = -1 THEN FormatError(c.fm)
  ELSE "ok"
TypedValue(c) == IF c.bl = 0 THEN 0 ELSE c.tv

RECURSIVE FirstBad(_, _, _)
FirstBad(h, s, i) == IF i > Len(s) THEN "ok" ELSE IF TypedVerdict(h, s[i]) # "ok" THEN TypedVerdict(h, s[i]) ELSE FirstBad(h, s, i + 1)

ReadTyped(h, v) ==
  LET x == ReadFull(h, v)
      cs == [i \in 1..Len(x.dn) |-> x.dn[i].v] \o x.du
      bad == FirstBad(h, cs, 1)
  IN IF x.r # "ok" THEN x
     ELSE IF bad # "ok" THEN Res(x.h, bad, <<>>, <<>>)
     ELSE Res(x.h, "ok", [i \in 1..Len(x.dn) |-> [x.dn[i] EXCEPT !.d = TypedValue(x.dn[i].v)]],
              [i \in 1..Len(x.du) |-> [x.du[i] EXCEPT !.d = TypedValue(x.du[i])]])

----------------------------------------------------------------------------
(* Cloning and configuration *)

CloneOf(h) == [h EXCEPT !.cln = TRUE, !.cl = TRUE, !.aside = <<>>, !.pin = 0, !.pe = 0]
Clone(h) == IF h.st = "S" THEN Ok([h EXCEPT !.cln = TRUE]) ELSE Rej(h, "NegoMustHaveBeenSuccessful")
ChangeConfig(h, fmt) == IF h.cln THEN Rej(h, "ForbidChangeConfAfterClone") ELSE Ok([h EXCEPT !.fmt = fmt])

----------------------------------------------------------------------------
TypeOK(h) ==
  /\ h.st \in {"N", "S", "F"} /\ h.lo \in 0..2 /\ h.re \in 0..2
  /\ (h.key # NoKey) => h.re # 0
  /\ Count(h.orp) <= MaxOrphans /\ CountUpTo(h.stk, Len(h.stk)) <= MaxOrphans
  /\ \A i \in 1..Len(h.orp) : h.orp[i].lo > h.nx
==============================================================================
