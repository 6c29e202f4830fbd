------------------------------ MODULE NetAddr ------------------------------
(***************************************************************************)
(* IP addresses in text: ParseAddr(s) is [ok, b] with b the 4 or 16 bytes; *)
(* IPv4-mapped IPv6 addresses are the IPv4 address (Unmapped).             *)
(***************************************************************************)
EXTENDS Bytes

NoAddr == [ok |-> FALSE, b |-> <<>>]
Addr(b) == [ok |-> TRUE, b |-> b]

\* dotted decimal: four numbers up to 255 without superfluous zeros
Octet(d) == AllDigits(d) /\ Len(d) <= 3 /\ (d[1] = 48 => Len(d) = 1) /\ DecVal(d) <= 255
ParseV4(s) ==
  LET f == Split(s, 46)
  IN IF Len(f) = 4 /\ \A i \in 1..4 : Octet(f[i]) THEN Addr([i \in 1..4 |-> DecVal(f[i])]) ELSE NoAddr

HexDigit(c) == Digit(c) \/ (97 <= c /\ c <= 102) \/ (65 <= c /\ c <= 70)
HexOf(c) == IF Digit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
Group(d) == Len(d) \in 1..4 /\ \A i \in 1..Len(d) : HexDigit(d[i])
RECURSIVE HexNum(_)
HexNum(d) == IF d = <<>> THEN 0 ELSE HexNum(SubSeq(d, 1, Len(d) - 1)) * 16 + HexOf(d[Len(d)])
Two(n) == <<n \div 256, n % 256>>

\* colon-separated groups of `s`, the last one possibly dotted decimal (if lastpart)
Groups(s, lastpart) ==
  IF s = <<>> THEN Addr(<<>>)
  ELSE LET f == Split(s, 58)
           n == Len(f)
           dotted == lastpart /\ FindByte(f[n], 46) # 0
           v4 == IF dotted THEN ParseV4(f[n]) ELSE NoAddr
           m == IF dotted THEN n - 1 ELSE n
       IN IF (\A i \in 1..m : Group(f[i])) /\ (dotted => v4.ok)
          THEN Addr(FlattenSeq([i \in 1..m |-> Two(HexNum(f[i]))]) \o (IF dotted THEN v4.b ELSE <<>>))
          ELSE NoAddr

Zeros(n) == [i \in 1..n |-> 0]
ParseV6(s) ==
  LET e == Find(s, <<58, 58>>)
      l == Groups(SubSeq(s, 1, e - 1), FALSE)
      r == Groups(From(s, e + 2), TRUE)
      w == Groups(s, TRUE)
  IN IF e = 0 THEN (IF w.ok /\ Len(w.b) = 16 THEN w ELSE NoAddr)
     ELSE IF l.ok /\ r.ok /\ Len(l.b) + Len(r.b) <= 14
     THEN Addr(l.b \o Zeros(16 - Len(l.b) - Len(r.b)) \o r.b) ELSE NoAddr

ParseAddr(s) ==
  IF FindByte(s, 58) # 0 THEN ParseV6(s) ELSE ParseV4(s)

\* an IPv6 address may come with a zone, which is no part of it
ZonedAddr(s) ==
  LET z == FindByte(s, 37)
      t == SubSeq(s, 1, z - 1)
  IN IF z = 0 THEN ParseAddr(s)
     ELSE IF z < Len(s) /\ FindByte(t, 58) # 0 THEN ParseV6(t) ELSE NoAddr

Mapped == <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 255, 255>>
Unmapped(b) == IF Len(b) = 16 /\ StartsWith(b, Mapped) THEN From(b, 13) ELSE b
=============================================================================
