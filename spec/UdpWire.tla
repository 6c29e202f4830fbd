------------------------------ MODULE UdpWire ------------------------------
(***************************************************************************)
(* The UDP tracker protocol (BEP 15): what a datagram asks for and the     *)
(* layout of replies.                                                      *)
(***************************************************************************)
EXTENDS Bytes

MaxDatagram == 1496
Cut(data) == Take(data, MaxDatagram)

ActConnect == <<0, 0, 0, 0>>
ActAnnounce == <<0, 0, 0, 1>>
ActScrape == <<0, 0, 0, 2>>
ActError == <<0, 0, 0, 3>>
ActHeartbeat == <<0, 0, 0, 4>>
HeartbeatReply == <<255>>

\* the request in a datagram of at least 16 bytes
UConn(d) == B8(d, 1)
UAct(d) == B4(d, 9)
UTx(d) == B4(d, 13)

UKind(d) ==
  IF Len(d) < 16 THEN "short"
  ELSE CASE UAct(d) = ActConnect -> "connect"
         [] UAct(d) = ActAnnounce -> "announce"
         [] UAct(d) = ActScrape -> "scrape"
         [] UAct(d) = ActError -> "error"
         [] UAct(d) = ActHeartbeat -> "heartbeat"
         [] OTHER -> "unknown"

\* announce fields
UHash(d) == SubSeq(d, 17, 36)
UPeer(d) == SubSeq(d, 37, 56)
ULeftZero(d) == B8(d, 65) = <<0, 0, 0, 0, 0, 0, 0, 0>>
UEvent(d) == B4(d, 81)
UStop(d) == UEvent(d) = <<0, 0, 0, 3>>
UCompleted(d) == UEvent(d) = <<0, 0, 0, 1>>
UNumwant(d) == B4(d, 93)
UPort(d) == U16(d, 97)
\* numwant: "not said" is zero or negative
UHasNumwant(d) == ~Neg4(UNumwant(d)) /\ UNumwant(d) # <<0, 0, 0, 0>>
UAsked(d) == IF UHasNumwant(d) THEN Val4(UNumwant(d)) ELSE 0

UHashes(d) == [k \in 1..((Len(d) - 16) \div 20) |-> SubSeq(d, 17 + 20 * (k - 1), 16 + 20 * k)]

\* replies
RAct(r) == Take(r, 4)
RTx(r) == SubSeq(r, 5, 8)
IsError(r, tx) == Len(r) >= 8 /\ RAct(r) = ActError /\ RTx(r) = tx
IsConnectReply(r, tx) == Len(r) = 16 /\ RAct(r) = ActConnect /\ RTx(r) = tx
IsAnnounceReply(r, tx) == Len(r) >= 20 /\ RAct(r) = ActAnnounce /\ RTx(r) = tx
IsScrapeReply(r, tx, n) == Len(r) = 8 + 12 * n /\ RAct(r) = ActScrape /\ RTx(r) = tx
RInterval(r) == B4(r, 9)
RLeechers(r) == B4(r, 13)
RSeeders(r) == B4(r, 17)
\* how many peers fit in a reply: a datagram has 65535 bytes, its headers 28, and
\* those of the reply 20 (whether or not an implementation counts them exactly)
RFit(w) == (65535 - 28 - 20) \div w
RPeers(r, w) == [k \in 1..((Len(r) - 20) \div w) |-> SubSeq(r, 21 + w * (k - 1), 20 + w * k)]
RTriple(r, k) == [s |-> B4(r, 9 + 12 * (k - 1)), l |-> B4(r, 17 + 12 * (k - 1))]
=============================================================================
