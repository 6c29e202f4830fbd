------------------------------ MODULE Bencode ------------------------------
(***************************************************************************)
(* A decoder of bencoded values.  Bdec(d) is the value of d, or Bad if d   *)
(* is anything but exactly one well-formed value.  Integers keep their     *)
(* digits (field n), strings their bytes (v), lists their items (l),       *)
(* dictionaries their key/value pairs in order (d).                        *)
(***************************************************************************)
EXTENDS Bytes

Bad == [t |-> "bad"]
BInt(n) == [t |-> "i", n |-> IF n < 0 THEN <<45>> \o Digits(-n) ELSE Digits(n)]
BStr(s) == [t |-> "s", v |-> s]

R(v, i) == [v |-> v, i |-> i]   \* value and the position after it

\* canonical decimal: no leading zeros, no minus zero
Canonical(m) ==
  LET ds == IF Len(m) > 0 /\ m[1] = 45 THEN Tail(m) ELSE m
  IN AllDigits(ds) /\ (ds[1] = 48 => m = <<48>>)

RECURSIVE Val(_, _), Items(_, _, _), Pairs(_, _, _), DigitsEnd(_, _), IntEnd(_, _)
DigitsEnd(d, i) == IF i <= Len(d) /\ Digit(d[i]) THEN DigitsEnd(d, i + 1) ELSE i
IntEnd(d, i) == IF i <= Len(d) /\ d[i] # 101 THEN IntEnd(d, i + 1) ELSE i

Val(d, i) ==
  IF i > Len(d) THEN R(Bad, i)
  ELSE CASE d[i] = 105 ->            \* i...e
         LET e == IntEnd(d, i + 1)
             m == SubSeq(d, i + 1, e - 1)
         IN IF e > Len(d) \/ ~Canonical(m) THEN R(Bad, i) ELSE R([t |-> "i", n |-> m], e + 1)
    [] Digit(d[i]) ->                \* n:...
         LET c == DigitsEnd(d, i)
             m == SubSeq(d, i, c - 1)
         IN IF c > Len(d) \/ d[c] # 58 \/ ~Canonical(m) \/ Len(m) > 8 \/ c + DecVal(m) > Len(d) THEN R(Bad, i)
            ELSE R(BStr(SubSeq(d, c + 1, c + DecVal(m))), c + DecVal(m) + 1)
    [] d[i] = 108 -> Items(d, i + 1, <<>>)
    [] d[i] = 100 -> Pairs(d, i + 1, <<>>)
    [] OTHER -> R(Bad, i)
Items(d, i, acc) ==
  IF i > Len(d) THEN R(Bad, i)
  ELSE IF d[i] = 101 THEN R([t |-> "l", l |-> acc], i + 1)
  ELSE LET x == Val(d, i) IN IF x.v = Bad THEN x ELSE Items(d, x.i, Append(acc, x.v))
Pairs(d, i, acc) ==
  IF i > Len(d) THEN R(Bad, i)
  ELSE IF d[i] = 101 THEN R([t |-> "d", d |-> acc], i + 1)
  ELSE LET k == Val(d, i) IN
       IF k.v = Bad \/ k.v.t # "s" THEN R(Bad, i)
       ELSE LET x == Val(d, k.i) IN
            IF x.v = Bad THEN x ELSE Pairs(d, x.i, Append(acc, [k |-> k.v.v, v |-> x.v]))

Bdec(d) == LET r == Val(d, 1) IN IF r.i = Len(d) + 1 THEN r.v ELSE Bad
IsDict(b) == b # Bad /\ b.t = "d"

\* dictionary access
Has(b, k) == \E i \in 1..Len(b.d) : b.d[i].k = k
At(b, k) == b.d[CHOOSE i \in 1..Len(b.d) : b.d[i].k = k].v
OnlyOnce(b, k) == Cardinality({i \in 1..Len(b.d) : b.d[i].k = k}) = 1
Keys(b) == {b.d[i].k : i \in 1..Len(b.d)}
=============================================================================
