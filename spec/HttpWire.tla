------------------------------ MODULE HttpWire -----------------------------
(***************************************************************************)
(* HTTP requests as the tracker reads them: one read of up to 2600 bytes,  *)
(* a GET line, up to 45 query parameters, each percent-decoded once; or    *)
(* the same base64-wrapped.                                                *)
(***************************************************************************)
EXTENDS Bencode

MaxRequest == 2600
MaxParams == 45

\* ---- base64 (standard alphabet, padded; line breaks are ignored)
B64Val(c) ==
  CASE 65 <= c /\ c <= 90 -> c - 65
    [] 97 <= c /\ c <= 122 -> c - 71
    [] 48 <= c /\ c <= 57 -> c + 4
    [] c = 43 -> 62
    [] c = 47 -> 63
    [] OTHER -> -1
B64Dec(d0) ==
  LET d == SelectSeq(d0, LAMBDA c : c # 10 /\ c # 13)
      n == Len(d)
      pad == IF n > 0 /\ d[n] = 61 THEN (IF n > 1 /\ d[n - 1] = 61 THEN 2 ELSE 1) ELSE 0
      ok == n % 4 = 0 /\ \A i \in 1..(n - pad) : B64Val(d[i]) >= 0
      q(g) == LET v(k) == LET c == d[4 * (g - 1) + k] IN IF c = 61 THEN 0 ELSE B64Val(c)
              IN <<v(1) * 4 + v(2) \div 16, (v(2) % 16) * 16 + v(3) \div 4, (v(3) % 4) * 64 + v(4)>>
      all == [i \in 1..(3 * (n \div 4)) |-> q((i - 1) \div 3 + 1)[((i - 1) % 3) + 1]]
  IN IF ok THEN [ok |-> TRUE, d |-> SubSeq(all, 1, 3 * (n \div 4) - pad)] ELSE [ok |-> FALSE, d |-> <<>>]

\* ---- percent-decoding, once; an escape needs two characters after it
HexVal(c) ==
  CASE Digit(c) -> c - 48
    [] 97 <= c /\ c <= 102 -> c - 87
    [] 65 <= c /\ c <= 70 -> c - 55
    [] OTHER -> 0
UnescapeSlow(s) ==
  LET step(st, c) ==
        CASE st.m = 0 /\ c = 37 -> [st EXCEPT !.m = 1]
          [] st.m = 0 /\ c # 37 -> [st EXCEPT !.o = Append(@, c)]
          [] st.m = 1 -> [st EXCEPT !.m = 2, !.h = HexVal(c)]
          [] OTHER -> [m |-> 0, h |-> 0, o |-> Append(st.o, st.h * 16 + HexVal(c))]
      r == FoldLeft(step, [m |-> 0, h |-> 0, o |-> <<>>], s)
  IN [ok |-> r.m = 0, s |-> r.o]
\* the same piece by piece, if no escape overlaps another
Unescape(s) ==
  IF FindByte(s, 37) = 0 THEN [ok |-> TRUE, s |-> s]
  ELSE LET ps == Split(s, 37)
           n == Len(ps)
       IN IF \E k \in 2..n : Len(ps[k]) < 2 THEN UnescapeSlow(s)
          ELSE [ok |-> TRUE, s |-> ps[1] \o FlattenSeq([k \in 1..(n - 1) |->
                  <<HexVal(ps[k + 1][1]) * 16 + HexVal(ps[k + 1][2])>> \o From(ps[k + 1], 3)])]

\* ---- the request
NoReq == [ok |-> FALSE]
HttpParse(data) ==
  LET raw == Take(data, MaxRequest)
      b64 == StartsWith(raw, H_b64)
      dec == IF b64 THEN B64Dec(raw) ELSE [ok |-> TRUE, d |-> raw]
      d == dec.d
      url == Find(d, H_http)
  IN
  IF ~dec.ok \/ ~StartsWith(d, H_get) \/ url = 0 THEN NoReq
  ELSE
    LET target == SubSeq(d, 5, url - 1)
        qm == FindByte(target, 63)
        path == IF qm = 0 THEN target ELSE SubSeq(target, 1, qm - 1)
        pieces == IF qm = 0 THEN <<>> ELSE Split(From(target, qm + 1), 38)
        kept == Take(pieces, MaxParams)
        dangling == Len(pieces) \in 1..MaxParams /\ pieces[Len(pieces)] = <<>>
        un == [i \in 1..Len(kept) |-> Unescape(kept[i])]
        rest == From(d, url)
    IN IF dangling \/ \E i \in 1..Len(kept) : ~un[i].ok THEN NoReq
       ELSE [ok |-> TRUE, path |-> path, params |-> [i \in 1..Len(kept) |-> un[i].s], rest |-> rest]

\* ---- announce parameters
KeyOf(p) == LET e == FindByte(p, 61) IN IF e = 0 THEN p ELSE SubSeq(p, 1, e - 1)
ValOf(p) == LET e == FindByte(p, 61) IN IF e = 0 THEN V_one ELSE From(p, e + 1)
\* the last value of key k, or none
LastVal(ps, k) ==
  LET S == {i \in 1..Len(ps) : KeyOf(ps[i]) = k} IN IF S = {} THEN <<>> ELSE ValOf(ps[Max(S)])
Flag(ps, k, v) == \E i \in 1..Len(ps) : KeyOf(ps[i]) = k /\ ValOf(ps[i]) = v

AnnounceReq(ps) ==
  LET port == ParseInt(LastVal(ps, K_port))
      nw == LastVal(ps, K_numwant)
      num == ParseInt(nw)
      ev == LastVal(ps, K_event)
      hash == LastVal(ps, K_hash)
      pid == LastVal(ps, K_peerid)
      stop == ev = V_stopped
      ids == Len(hash) = 20 /\ Len(pid) = 20
  IN [ok |-> ids /\ (stop \/ (port.ok /\ port.v \in 1..65535 /\ (nw = <<>> \/ (num.ok /\ num.v >= 0)))),
      hash |-> hash, pid |-> pid, stop |-> stop,
      port |-> port.v, hasnum |-> nw # <<>>, num |-> num.v,
      complete |-> ev = V_completed \/ Flag(ps, K_left, V_zero),
      compact |-> Flag(ps, K_compact, V_one), nopid |-> Flag(ps, K_nopeerid, V_one)]

ScrapeHashes(ps) ==
  LET hs == SelectSeq(ps, LAMBDA p : StartsWith(p, K_hasheq))
  IN [i \in 1..Len(hs) |-> From(hs[i], 11)]

\* ---- the forwarding header: what follows the last comma of its first occurrence
Forwarded(rest) ==
  LET at == Find(rest, H_fwd)
      v == From(rest, at + Len(H_fwd))
      e == Find(v, H_crlf)
      line == SubSeq(v, 1, e - 1)
      c == FindLastByte(line, 44)
  IN IF at = 0 THEN [has |-> FALSE, ip |-> <<>>]
     ELSE IF e = 0 THEN [has |-> TRUE, ip |-> <<>>]
     ELSE [has |-> TRUE, ip |-> IF c = 0 THEN line ELSE Trim(From(line, c + 1))]

\* ---- replies
Status(r) == IF StartsWith(r, H_status) /\ Len(r) >= 12 THEN SubSeq(r, 10, 12) ELSE <<>>
S200 == <<50, 48, 48>>
S400 == <<52, 48, 48>>
S404 == <<52, 48, 52>>
HasBody(r) == Find(Take(r, 600), H_end) # 0
Body(r) == From(r, Find(Take(r, 600), H_end) + 4)
=============================================================================
