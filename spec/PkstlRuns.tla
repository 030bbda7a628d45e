------------------------------ MODULE PkstlRuns ------------------------------
(***************************************************************************)
(* The numbers a layer has received beyond the lowest missing one, as a    *)
(* sequence of disjoint arithmetic runs [lo, hi, st].  PkstlWindow.tla     *)
(* checks that this represents the obvious set semantics.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

RunLen(r) == (r.hi - r.lo) \div r.st + 1
RunHas(r, n) == n >= r.lo /\ n <= r.hi /\ (n - r.lo) % r.st = 0
Has(rs, n) == \E i \in 1..Len(rs) : RunHas(rs[i], n)

RECURSIVE CountUpTo(_, _)
CountUpTo(rs, i) == IF i = 0 THEN 0 ELSE RunLen(rs[i]) + CountUpTo(rs, i - 1)
Count(rs) == CountUpTo(rs, Len(rs))

Remove(rs, i) == SubSeq(rs, 1, i - 1) \o SubSeq(rs, i + 1, Len(rs))

\* Add one number that is not in rs
Add(rs, n) ==
  IF \E i \in 1..Len(rs) : rs[i].st = 1 /\ rs[i].hi = n - 1
  THEN LET i == CHOOSE i \in 1..Len(rs) : rs[i].st = 1 /\ rs[i].hi = n - 1
       IN [rs EXCEPT ![i].hi = n]
  ELSE Append(rs, [lo |-> n, hi |-> n, st |-> 1])

\* Everything below nx has been received and all of rs is >= nx: advance nx over contiguous numbers
RECURSIVE Absorb(_, _)
Absorb(nx, rs) ==
  IF \E i \in 1..Len(rs) : rs[i].lo = nx
  THEN LET i == CHOOSE i \in 1..Len(rs) : rs[i].lo = nx
           r == rs[i]
       IN IF r.st = 1 \/ r.lo = r.hi
          THEN Absorb(r.hi + 1, Remove(rs, i))
          ELSE Absorb(nx + 1, [rs EXCEPT ![i].lo = r.lo + r.st])
  ELSE [nx |-> nx, rs |-> rs]

\* no number of the run [lo, hi, st] is in rs (bulk runs never partially overlap in the scenarios)
Disjoint(rs, lo, hi, st) ==
  \A i \in 1..Len(rs) : \/ rs[i].hi < lo \/ rs[i].lo > hi
                        \/ (st = rs[i].st /\ (lo - rs[i].lo) % st # 0)
                        \/ (st = 1 /\ lo = hi /\ ~RunHas(rs[i], lo))
Inside(rs, lo, hi, st) ==
  \E i \in 1..Len(rs) : rs[i].lo <= lo /\ hi <= rs[i].hi /\ (rs[i].st = 1 \/ (rs[i].st = st /\ RunHas(rs[i], lo)))
==============================================================================
