------------------------------- MODULE WireMC ------------------------------
(***************************************************************************)
(* The decoders of the specification against encoders, over all short      *)
(* strings of telling bytes.  Nothing here concerns the implementation.    *)
(***************************************************************************)
EXTENDS TLC, Integers, Sequences, FiniteSets, SequencesExt
W == INSTANCE HttpWire
U == INSTANCE UdpWire
N == INSTANCE NetAddr
C == INSTANCE UdpCodec

VARIABLE x
Strings(A, n) == UNION {[1..k -> A] : k \in 0..n}
T(s) == s   \* strings are functions 1..k -> bytes

\* percent-encoding
Hex(n) == IF n < 10 THEN 48 + n ELSE 55 + n
Esc(s) == FlattenSeq([i \in 1..Len(s) |-> <<37, Hex(s[i] \div 16), Hex(s[i] % 16)>>])
Telling == {0, 37, 38, 43, 61, 63, 65, 97, 255}
ASSUME \A s \in Strings(Telling, 3) : W!Unescape(Esc(s)) = [ok |-> TRUE, s |-> s]
ASSUME \A s \in Strings({37, 52, 97, 122}, 7) : W!Unescape(s) = W!UnescapeSlow(s)
ASSUME \A s \in Strings(Telling \ {37}, 3) : W!Unescape(s) = [ok |-> TRUE, s |-> s]
ASSUME \A s \in Strings(Telling \ {37}, 2) : ~W!Unescape(s \o <<37>>).ok /\ ~W!Unescape(s \o <<37, 65>>).ok
\* decoded once: an encoded escape stays an escape
ASSUME W!Unescape(<<37, 50, 53, 52, 49>>) = [ok |-> TRUE, s |-> <<37, 52, 49>>]

\* bencoding
RECURSIVE Benc(_)
Benc(v) ==
  CASE v.t = "i" -> <<105>> \o v.n \o <<101>>
    [] v.t = "s" -> W!Digits(Len(v.v)) \o <<58>> \o v.v
    [] v.t = "l" -> <<108>> \o FlattenSeq([i \in 1..Len(v.l) |-> Benc(v.l[i])]) \o <<101>>
    [] v.t = "d" -> <<100>> \o FlattenSeq([i \in 1..Len(v.d) |-> Benc(W!BStr(v.d[i].k)) \o Benc(v.d[i].v)]) \o <<101>>
BAlpha == {100, 101, 105, 108, 48, 49, 50, 58, 45}
\* whatever decodes is the encoding of what it decodes to
ASSUME \A s \in Strings(BAlpha, 5) : W!Bdec(s) # W!Bad => Benc(W!Bdec(s)) = s
Vals == {W!BInt(0), W!BInt(-1), W!BInt(1800), W!BStr(<<>>), W!BStr(<<101, 58, 100>>)}
Vals2 == Vals \cup {[t |-> "l", l |-> s] : s \in Strings(Vals, 2)}
         \cup {[t |-> "d", d |-> s] : s \in Strings({[k |-> <<101>>, v |-> y] : y \in Vals}, 2)}
Vals3 == Vals2 \cup {[t |-> "l", l |-> <<y, z>>] : y \in Vals2, z \in Vals}
ASSUME \A v \in Vals3 : W!Bdec(Benc(v)) = v /\ W!Bdec(Benc(v) \o <<101>>) = W!Bad

\* base64
B64Chr(n) == IF n < 26 THEN 65 + n ELSE IF n < 52 THEN 71 + n ELSE IF n < 62 THEN n - 4 ELSE IF n = 62 THEN 43 ELSE 47
B64Enc(s) ==
  LET n == Len(s)
      y(i) == IF i <= n THEN s[i] ELSE 0
      g(k) == LET a == y(3 * k - 2)  b == y(3 * k - 1)  c == y(3 * k) IN
              <<B64Chr(a \div 4), B64Chr((a % 4) * 16 + (b \div 16)), B64Chr((b % 16) * 4 + (c \div 64)), B64Chr(c % 64)>>
      all == FlattenSeq([k \in 1..((n + 2) \div 3) |-> g(k)])
      pad == (3 - (n % 3)) % 3
  IN [i \in 1..Len(all) |-> IF i > Len(all) - pad THEN 61 ELSE all[i]]
ASSUME \A s \in Strings({0, 37, 71, 128, 255}, 4) : W!B64Dec(B64Enc(s)) = [ok |-> TRUE, d |-> s]
ASSUME ~W!B64Dec(<<82, 48, 86>>).ok /\ ~W!B64Dec(<<82, 48, 86, 33>>).ok

\* numbers
ASSUME \A n \in 0..70000 : n % 7 = 0 => W!DecVal(W!Digits(n)) = n
ASSUME \A n \in {0, 1, 9, 10, 65535, 65536, 999999999} :
         /\ W!ParseInt(W!Digits(n)) = [ok |-> TRUE, v |-> n]
         /\ W!ParseInt(<<43>> \o W!Digits(n)) = [ok |-> TRUE, v |-> n]
         /\ W!ParseInt(<<45>> \o W!Digits(n)) = [ok |-> TRUE, v |-> -n]
         /\ W!ParseInt(<<48, 48>> \o W!Digits(n)) = [ok |-> TRUE, v |-> n]
         /\ U!Val4(U!Num4(n)) = n
ASSUME \A s \in {<<>>, <<45>>, <<43>>, <<32, 49>>, <<49, 32>>, <<48, 120, 49>>, <<49, 95, 48>>, W!N_maxint \o <<48>>} : ~W!ParseInt(s).ok
ASSUME W!ParseInt(W!N_maxint).ok /\ ~W!ParseInt([W!N_maxint EXCEPT ![19] = 56]).ok

\* addresses
ASSUME N!ParseAddr(<<49, 46, 50, 46, 51, 46, 52>>) = N!Addr(<<1, 2, 3, 4>>)            \* 1.2.3.4
ASSUME ~N!ParseAddr(<<49, 46, 50, 46, 51>>).ok /\ ~N!ParseAddr(<<49, 46, 50, 46, 51, 46, 48, 52>>).ok
ASSUME ~N!ParseAddr(<<49, 46, 50, 46, 51, 46, 50, 53, 54>>).ok /\ ~N!ParseAddr(<<>>).ok
ASSUME LET z == <<58, 58, 37, 97>> IN N!ZonedAddr(z) = N!Addr([i \in 1..16 |-> 0]) /\ ~N!ParseAddr(z).ok    \* ::%a
ASSUME ~N!ZonedAddr(<<58, 58, 37>>).ok /\ ~N!ZonedAddr(<<49, 46, 50, 46, 51, 46, 52, 37, 97>>).ok           \* ::% and 1.2.3.4%a
ASSUME N!ParseAddr(<<58, 58>>) = N!Addr([i \in 1..16 |-> 0])
ASSUME N!ParseAddr(<<58, 58, 49>>) = N!Addr([i \in 1..16 |-> IF i = 16 THEN 1 ELSE 0])
ASSUME N!ParseAddr(<<97, 58, 58, 66>>) = N!Addr([i \in 1..16 |-> IF i = 2 THEN 10 ELSE IF i = 16 THEN 11 ELSE 0])
ASSUME LET m == N!ParseAddr(<<58, 58, 102, 102, 102, 102, 58, 49, 46, 50, 46, 51, 46, 52>>)
       IN m.ok /\ N!Unmapped(m.b) = <<1, 2, 3, 4>>

\* a whole request: parameters come back as they were
Crlf == <<13, 10, 13, 10>>
Req(path, ps) ==
  <<71, 69, 84, 32>> \o path \o (IF ps = <<>> THEN <<>> ELSE <<63>> \o FlattenSeq([i \in 1..Len(ps) |-> (IF i = 1 THEN <<>> ELSE <<38>>) \o Esc(ps[i])]))
  \o W!H_http \o <<49, 46, 49>> \o Crlf
ASSUME \A p \in {W!S_announce, W!S_slash} :
  \A ps \in UNION {[1..k -> {<<38, 61>>, <<97, 61, 37>>, <<255>>}] : k \in 0..3} :
    /\ W!HttpParse(Req(p, ps)) = [ok |-> TRUE, path |-> p, params |-> ps, rest |-> W!H_http \o <<49, 46, 49>> \o Crlf]
    /\ W!HttpParse(B64Enc(Req(p, ps))) = W!HttpParse(Req(p, ps))
    /\ ~W!HttpParse(Tail(Req(p, ps))).ok
    /\ ~W!HttpParse(SubSeq(Req(p, ps), 1, 4)).ok

\* messages: what a wire form says is what was put in it, and the decoder of requests reads the same
MsgNames == {"connect", "connectresp", "announce", "announceresp", "scrape", "scraperesp", "error"}
Zeros(n) == [i \in 1..n |-> 0]
Fill(w, b) == [i \in 1..w |-> (b + 7 * i) % 256]
Msgs(m) ==
  {[n \in {C!Layout(m)[i].n : i \in 1..Len(C!Layout(m))} \cup (IF C!Rest(m) = C!NoRest THEN {} ELSE {C!Rest(m).n}) |->
      IF n = C!Rest(m).n THEN Fill(k * C!Rest(m).w, b)
      ELSE LET i == CHOOSE i \in 1..Len(C!Layout(m)) : C!Layout(m)[i].n = n IN Fill(C!Layout(m)[i].w, b + 31 * i)] : k \in 0..3, b \in {0, 200}}
ASSUME \A m \in MsgNames : \A f \in Msgs(m) :
  LET w == C!Wire(m, f) IN
  /\ C!Enough(m, w) /\ C!Message(m, w) = f
  /\ ~C!Enough(m, SubSeq(w, 1, C!Fixed(m) - 1))
  /\ \A k \in 0..12 : C!Wire(m, C!Message(m, w \o Zeros(k))) = w \o Zeros(IF C!Rest(m) = C!NoRest THEN 0 ELSE (k \div C!Rest(m).w) * C!Rest(m).w)
ASSUME \A f \in Msgs("announce") :
  LET w == C!Wire("announce", f) IN
  /\ U!UConn(w) = f.ConnectionID /\ U!UAct(w) = f.Action /\ U!UTx(w) = f.TransactionID /\ U!UHash(w) = f.InfoHash /\ U!UPeer(w) = f.PeerID
  /\ U!UEvent(w) = f.Event /\ U!UNumwant(w) = f.NumWant /\ U!UPort(w) = 256 * f.Port[1] + f.Port[2] /\ (U!ULeftZero(w) <=> f.Left = Zeros(8))
ASSUME \A f \in Msgs("announceresp") :
  LET w == C!Wire("announceresp", f) IN
  U!RInterval(w) = f.Interval /\ U!RLeechers(w) = f.Leechers /\ U!RSeeders(w) = f.Seeders /\ FlattenSeq(U!RPeers(w, 1)) = f.Peers
ASSUME \A f \in Msgs("scrape") : FlattenSeq(U!UHashes(C!Wire("scrape", f))) = f.InfoHashes
ASSUME C!Fixed("connect") = 16 /\ C!Fixed("announce") = 98 /\ C!Fixed("announceresp") = 20 /\ C!Fixed("scrape") = 16

Init == x = 0
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
=============================================================================
