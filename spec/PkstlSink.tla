------------------------------ MODULE PkstlSink -------------------------------
(***************************************************************************)
(* One write through a BufWriter into an arbitrary underlying writer (C19).*)
(* The message is handed over in parts (body and signature, ciphertext     *)
(* chunks and tag), each entirely ("write_all" of the standard library,    *)
(* modelled as documented), and the buffer is flushed by the user at the   *)
(* end.  The underlying writer answers every offer of k bytes with: some   *)
(* of them, none, "interrupted", or an error.  The reachable sequences of  *)
(* answers are executed on the real crate.                                 *)
(*                                                                         *)
(* Answers: 1 one byte, 2 half, 3 all but one, 4 all, 0 none, -1           *)
(* interrupted, -2 error, -3 would block.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Shapes,  \* lengths of the parts
          Caps,    \* capacities of the buffer
          Pres,    \* bytes already in the buffer
          Depth,   \* answers other than "all"
          Whole,   \* every part is handed over entirely (FALSE: a single write, as the crate once did)
          Emit

S1 == {<<90, 64>>, <<70, 16>>, <<7000, 16>>}
VARIABLES parts,   \* parts still to be handed over; the head may have been accepted partly
          cap, buf, \* buffer: capacity and number of bytes in it
          got,     \* bytes on the underlying writer
          tot, pre, shape,
          ph,      \* "call", "flush" (by the user, after the call), "end"
          cold,    \* the buffer is being emptied to make room for the head
          res,     \* result of the call
          fault,   \* the writer failed while the call was running / while the user flushed
          script
vars == <<parts, cap, buf, got, tot, pre, shape, ph, cold, res, fault, script>>

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))

Init == /\ shape \in Shapes /\ cap \in Caps /\ pre \in Pres /\ pre <= cap
        /\ parts = shape /\ buf = pre /\ got = 0 /\ tot = Sum(shape) + pre
        /\ ph = "call" /\ cold = FALSE /\ res = "" /\ fault = "" /\ script = <<>>

Odd == {j \in 1..Len(script) : script[j] # 4}
Answers(k) == {4} \cup (IF Len(script) < Depth THEN {-1, -2, -3, 0} \cup (IF k > 1 THEN {1} ELSE {}) \cup (IF k > 2 THEN {3} ELSE {}) \cup (IF k > 4 THEN {2} ELSE {}) ELSE {})
Take(a, k) == CASE a = 1 -> 1 [] a = 2 -> k \div 2 [] a = 3 -> k - 1 [] OTHER -> k

\* the next part goes into the buffer
Buffer == /\ ph = "call" /\ parts # <<>> /\ ~cold
          /\ buf + parts[1] <= cap /\ parts[1] < cap
          /\ buf' = buf + parts[1] /\ parts' = Tail(parts)
          /\ UNCHANGED <<cap, got, tot, pre, shape, ph, cold, res, fault, script>>
\* no room: the buffer is emptied first
Room == /\ ph = "call" /\ parts # <<>> /\ ~cold /\ buf > 0 /\ buf + parts[1] > cap
        /\ cold' = TRUE /\ UNCHANGED <<parts, cap, buf, got, tot, pre, shape, ph, res, fault, script>>
\* offers of the buffer
Empty == /\ (ph = "call" /\ cold) \/ (ph = "flush" /\ buf > 0)
         /\ \E a \in Answers(buf) :
              /\ script' = Append(script, a)
              /\ IF a \in {0, -2, -3}
                 THEN /\ fault' = ph
                      /\ res' = IF ph = "call" THEN "err" ELSE res
                      /\ ph' = "end" /\ UNCHANGED <<buf, got, cold>>
                 ELSE LET n == IF a = -1 THEN 0 ELSE Take(a, buf) IN
                      /\ buf' = buf - n /\ got' = got + n
                      /\ cold' = (ph = "call" /\ buf' > 0)
                      /\ UNCHANGED <<ph, res, fault>>
         /\ UNCHANGED <<parts, cap, tot, pre, shape>>
\* offers of a part that is larger than the buffer
Direct == /\ ph = "call" /\ parts # <<>> /\ ~cold /\ buf = 0 /\ parts[1] >= cap
          /\ \E a \in Answers(parts[1]) :
              /\ script' = Append(script, a)
              /\ IF a \in {0, -2, -3}
                 THEN fault' = ph /\ res' = "err" /\ ph' = "end" /\ UNCHANGED <<parts, got>>
                 ELSE LET n == IF a = -1 THEN 0 ELSE Take(a, parts[1]) IN
                      /\ got' = got + n
                      /\ parts' = IF n = parts[1] \/ (~Whole /\ a # -1) THEN Tail(parts) ELSE <<parts[1] - n>> \o Tail(parts)
                      /\ UNCHANGED <<ph, res, fault>>
          /\ UNCHANGED <<cap, buf, tot, pre, shape, cold>>
Return == /\ ph = "call" /\ parts = <<>>
          /\ res' = "ok" /\ ph' = "flush" /\ UNCHANGED <<parts, cap, buf, got, tot, pre, shape, cold, fault, script>>
End == /\ ph = "flush" /\ buf = 0 /\ ph' = "end" /\ UNCHANGED <<parts, cap, buf, got, tot, pre, shape, cold, res, fault, script>>

Next == Buffer \/ Room \/ Empty \/ Direct \/ Return \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* everything is on the writer when the call succeeded and the user's flush did
Success == (ph = "end" /\ res = "ok" /\ fault = "") => got = tot
Failure == (fault = "call") <=> (res = "err")
Prefix == got + buf <= tot
Ends == <>(ph = "end")
EmitScript == (Emit /\ ph = "end") => PrintT(ToJson([n |-> Len(shape), big |-> shape[1] > 1000, sig |-> shape[2] = 64, cap |-> cap, pre |-> pre, script |-> script, res |-> res, flt |-> fault]))
==============================================================================
