------------------------------ MODULE PkstlWire ------------------------------
(***************************************************************************)
(* What a byte string given to a layer means.                              *)
(*                                                                         *)
(* A byte string is abstracted to a *view*: the facts an independent       *)
(* parser can establish about it.  Identities, ephemeral keys, contents    *)
(* and session keys are small integers; a session key is the ordered pair  *)
(* of the two ephemeral keys it is derived from.                           *)
(*                                                                         *)
(*   f   0: shorter than the magic value, 1: starts with it (clear), 2: else*)
(*   len total length                                                      *)
(*   k   session key under which the whole string opens (NoKey: none known)*)
(*   the rest describes the clear text (the string itself if f = 1):       *)
(*   pl  its length           mg  begins with the magic value              *)
(*   vr  version              dc  declared length     ty  message type     *)
(*   n   number (user)        ep al pk  ephemeral key, signature algorithm,*)
(*   ch  challenge: the ephemeral key whose SHA-256 it is     public key   *)
(*   sg  public key under which the trailing bytes sign all bytes before   *)
(*   hs  the trailing bytes are the SHA-256 of all bytes before            *)
(*   b   content (0: none)    zb  content once inflated (-1: not deflate)  *)
(*   bl  length of the content on the wire                                 *)
(*   fm tv  format header and typed value found in the inflated content    *)
(***************************************************************************)
EXTENDS Integers, Sequences

NoKey == <<0, 0>>
KeyOf(a, b) == IF a < b THEN <<a, b>> ELSE <<b, a>>

\* ephemeral keys of low order, for which no agreement exists
IsLow(e) == e >= 100000

\* sizes in bytes
MagicEnd == 4      VersionEnd == 8     HeadEnd == 16
TagLen == 16       HashLen == 32       SigLen == 64
TypeLen == 2

TUser == 0  TConnect == 1  TAck == 2

\* type field and type specific fields, before the content
HdrLen(ty) == CASE ty = TUser -> 10 [] ty = TConnect -> 70 [] OTHER -> 34

\* The reason why the bytes after the 16-byte head are not understood, or "ok"
TypeVerdict(v) ==
  LET a == v.pl - HeadEnd IN
  IF a < TypeLen THEN "MessageTooShort"
  ELSE CASE v.ty = TUser    -> IF a < 10 THEN "MessageTooShort" ELSE "ok"
         [] v.ty = TConnect -> IF a < 38 THEN "MessageTooShort"
                               ELSE IF v.al # 0 THEN "UnsupportedSigAlgo"
                               ELSE IF a < 70 THEN "MessageTooShort" ELSE "ok"
         [] v.ty = TAck     -> IF a < 34 THEN "MessageTooShort" ELSE "ok"
         [] OTHER           -> "UnknownMessageType"

\* User messages are encrypted, negotiation messages are not
MustBeEncrypted(ty) == ty = TUser

\* The verdict on the framing of a byte string, for a layer holding session key `key`
Parse(v, key) ==
  IF v.f = 0 THEN "MessageTooShort"
  ELSE IF v.f = 2 /\ key = NoKey THEN "UnexpectedMessage"
  ELSE IF v.f = 2 /\ v.len < TagLen THEN "MessageTooShort"
  ELSE IF v.f = 2 /\ v.k # key THEN "FailToDecryptData"
  ELSE IF v.pl < MagicEnd THEN "MessageTooShort"
  ELSE IF ~v.mg THEN "InvalidMagicValue"
  ELSE IF v.pl < VersionEnd THEN "MessageTooShort"
  ELSE IF v.vr # 1 THEN "UnsupportedVersion"
  ELSE IF v.pl < HeadEnd THEN "MessageTooShort"
  ELSE IF TypeVerdict(v) # "ok" THEN TypeVerdict(v)
  ELSE IF (v.f = 2) # MustBeEncrypted(v.ty) THEN "UnexpectedEncryptionState"
  ELSE IF v.dc < HdrLen(v.ty) \/ v.dc > v.pl - HeadEnd THEN "MessageTooShort"
  ELSE "ok"

\* Errors by which the framing alone is refused
FramingErrors == {"MessageTooShort", "UnexpectedMessage", "FailToDecryptData", "InvalidMagicValue",
                  "UnsupportedVersion", "UnsupportedSigAlgo", "UnknownMessageType",
                  "UnexpectedEncryptionState"}

(***************************************************************************)
(* Layout of what a layer emits: the view that the independent parser must *)
(* find, `bl` being the length of the content on the wire.                 *)
(***************************************************************************)
Framed(v, ty, trailer) ==
  /\ v.mg /\ v.vr = 1 /\ v.ty = ty
  /\ v.dc = HdrLen(ty) + v.bl
  /\ v.pl = HeadEnd + v.dc + trailer

ConnectLayout(v, ep, pk) ==
  /\ v.f = 1 /\ v.len = v.pl /\ Framed(v, TConnect, SigLen)
  /\ v.ep = ep /\ v.al = 0 /\ v.pk = pk /\ v.sg = pk

AckLayout(v, peer, pk) ==
  /\ v.f = 1 /\ v.len = v.pl /\ Framed(v, TAck, SigLen)
  /\ v.ch = peer /\ v.sg = pk

UserLayout(v, key, n) ==
  /\ v.f = 2 /\ v.k = key /\ v.len = v.pl + TagLen /\ Framed(v, TUser, HashLen)
  /\ v.hs /\ v.n = n

(***************************************************************************)
(* Abstract messages, for the models (the harness gets views by parsing)   *)
(***************************************************************************)
BaseView == [f |-> 1, len |-> 300, k |-> NoKey, w |-> 0, wi |-> 0, pl |-> 300, mg |-> TRUE, vr |-> 1,
             dc |-> 100, ty |-> 0, n |-> 0, ep |-> 0, al |-> 0, pk |-> 0, ch |-> 0, sg |-> 0,
             hs |-> FALSE, b |-> 0, zb |-> 0, bl |-> 0, fm |-> -1, tv |-> -1]
ConnectView(ep, pk, sg, d) ==
  [BaseView EXCEPT !.ty = TConnect, !.ep = ep, !.pk = pk, !.sg = sg, !.b = d, !.zb = d, !.bl = d]
AckView(ch, sg, d) ==
  [BaseView EXCEPT !.ty = TAck, !.ch = ch, !.sg = sg, !.b = d, !.zb = d, !.bl = d]
UserView(k, n, hs, d) ==
  [BaseView EXCEPT !.f = 2, !.k = k, !.ty = TUser, !.n = n, !.hs = hs, !.b = d, !.zb = d, !.bl = d]
==============================================================================
