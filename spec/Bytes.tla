------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte strings as sequences of 0..255: searching, numbers, and the        *)
(* literals of the two wire formats.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

AllBytes == 0..255

StartsWith(d, p) == Len(d) >= Len(p) /\ SubSeq(d, 1, Len(p)) = p
EndsWith(d, p) == Len(d) >= Len(p) /\ SubSeq(d, Len(d) - Len(p) + 1, Len(d)) = p
Take(d, n) == SubSeq(d, 1, IF n < Len(d) THEN n ELSE Len(d))
From(d, i) == SubSeq(d, i, Len(d))
Least1(S) == CHOOSE x \in S : \A y \in S : x <= y

\* first position of p in d, 0 if it does not occur
Find(d, p) ==
  LET S == {i \in 1..(Len(d) - Len(p) + 1) : d[i] = p[1] /\ SubSeq(d, i, i + Len(p) - 1) = p}
  IN IF S = {} THEN 0 ELSE Min(S)
FindByte(d, b) == LET S == {i \in 1..Len(d) : d[i] = b} IN IF S = {} THEN 0 ELSE Min(S)
FindLastByte(d, b) == LET S == {i \in 1..Len(d) : d[i] = b} IN IF S = {} THEN 0 ELSE Max(S)

\* the pieces of d between occurrences of byte b (always at least one piece)
Split(d, b) ==
  LET at == SetToSortSeq({i \in 1..Len(d) : d[i] = b}, <)
      n == Len(at)
  IN [k \in 1..(n + 1) |->
        SubSeq(d, IF k = 1 THEN 1 ELSE at[k - 1] + 1, IF k = n + 1 THEN Len(d) ELSE at[k] - 1)]

IsSpace(b) == b \in {9, 10, 11, 12, 13, 32}
Trim(d) ==
  LET S == {i \in 1..Len(d) : ~IsSpace(d[i])}
  IN IF S = {} THEN <<>> ELSE SubSeq(d, Min(S), Max(S))

\* big-endian numbers; TLC's integers end at 2^31 - 1, so the four bytes of a
\* number are kept as bytes wherever they may exceed that
U16(d, i) == d[i] * 256 + d[i + 1]
B4(d, i) == SubSeq(d, i, i + 3)
B8(d, i) == SubSeq(d, i, i + 7)
Num4(n) == <<(n \div 16777216) % 256, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
Neg4(b) == b[1] >= 128                                   \* as a signed number
Val4(b) == b[1] * 16777216 + b[2] * 65536 + b[3] * 256 + b[4]   \* if not Neg4

\* literals
S_announce == <<47, 97, 110, 110, 111, 117, 110, 99, 101>>
S_scrape == <<47, 115, 99, 114, 97, 112, 101>>
S_heartbeat == <<47, 104, 101, 97, 114, 116, 98, 101, 97, 116>>
S_stats == <<47, 115, 116, 97, 116, 115>>
S_slash == <<47>>
K_compact == <<99, 111, 109, 112, 97, 99, 116>>
K_nopeerid == <<110, 111, 95, 112, 101, 101, 114, 95, 105, 100>>
K_left == <<108, 101, 102, 116>>
K_event == <<101, 118, 101, 110, 116>>
K_port == <<112, 111, 114, 116>>
K_hash == <<105, 110, 102, 111, 95, 104, 97, 115, 104>>
K_peerid == <<112, 101, 101, 114, 95, 105, 100>>
K_numwant == <<110, 117, 109, 119, 97, 110, 116>>
K_hasheq == <<105, 110, 102, 111, 95, 104, 97, 115, 104, 61>>
V_stopped == <<115, 116, 111, 112, 112, 101, 100>>
V_completed == <<99, 111, 109, 112, 108, 101, 116, 101, 100>>
V_one == <<49>>
V_zero == <<48>>
B_interval == <<105, 110, 116, 101, 114, 118, 97, 108>>
B_complete == <<99, 111, 109, 112, 108, 101, 116, 101>>
B_incomplete == <<105, 110, 99, 111, 109, 112, 108, 101, 116, 101>>
B_peers == <<112, 101, 101, 114, 115>>
B_peers6 == <<112, 101, 101, 114, 115, 54>>
B_files == <<102, 105, 108, 101, 115>>
B_failure == <<102, 97, 105, 108, 117, 114, 101, 32, 114, 101, 97, 115, 111, 110>>
B_pid == <<112, 101, 101, 114, 32, 105, 100>>
B_ip == <<105, 112>>
B_port == <<112, 111, 114, 116>>
B_one_day == <<56, 54, 52, 48, 48>>
H_get == <<71, 69, 84, 32, 47>>
H_http == <<32, 72, 84, 84, 80, 47>>
H_b64 == <<82, 48, 86, 85>>
H_crlf == <<13, 10>>
H_end == <<13, 10, 13, 10>>
H_fwd == <<13, 10, 88, 45, 70, 111, 114, 119, 97, 114, 100, 101, 100, 45, 70, 111, 114, 58, 32>>
H_status == <<72, 84, 84, 80, 47, 49, 46>>
N_maxint == <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 55>>

\* decimal
Digit(b) == 48 <= b /\ b <= 57
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
AllDigits(d) == Len(d) > 0 /\ \A i \in 1..Len(d) : Digit(d[i])
RECURSIVE NoZeros(_)
NoZeros(d) == IF Len(d) > 1 /\ d[1] = 48 THEN NoZeros(Tail(d)) ELSE d
RECURSIVE DecVal(_)
DecVal(d) == IF d = <<>> THEN 0 ELSE DecVal(SubSeq(d, 1, Len(d) - 1)) * 10 + d[Len(d)] - 48
RECURSIVE LexLeq(_, _)
LexLeq(a, b) == a = <<>> \/ a[1] < b[1] \/ (a[1] = b[1] /\ LexLeq(Tail(a), Tail(b)))

\* An integer in the notation of HTTP parameters: optional sign, digits, and
\* it has to fit 64 bits.  Values above 10^9 are reported as 10^9: all the
\* limits they are compared with are far below.
Big == 1000000000
ParseInt(d) ==
  LET signed == Len(d) > 0 /\ d[1] \in {43, 45}
      neg == signed /\ d[1] = 45
      ds == IF signed THEN Tail(d) ELSE d
      m == NoZeros(ds)
  IN IF ~AllDigits(ds) \/ Len(m) > 19 \/ (Len(m) = 19 /\ ~LexLeq(m, N_maxint) /\ ~neg)
     THEN [ok |-> FALSE, v |-> 0]
     ELSE LET v == IF Len(m) > 9 THEN Big ELSE DecVal(m) IN [ok |-> TRUE, v |-> IF neg THEN -v ELSE v]

=============================================================================
