------------------------------ MODULE UdpCodec ------------------------------
(***************************************************************************)
(* The messages of the UDP protocol as records: which fields, how many     *)
(* bytes each, in which order.  Fields are their bytes, most significant   *)
(* first; the last field of some messages takes what is left.              *)
(***************************************************************************)
EXTENDS Bytes

F(n, w) == [n |-> n, w |-> w]
Layout(msg) ==
  CASE msg = "connect" -> <<F("ProtcolID", 8), F("Action", 4), F("TransactionID", 4)>>
    [] msg = "connectresp" -> <<F("Action", 4), F("TransactionID", 4), F("ConnectionID", 8)>>
    [] msg = "announce" ->
         <<F("ConnectionID", 8), F("Action", 4), F("TransactionID", 4), F("InfoHash", 20), F("PeerID", 20), F("Downloaded", 8),
           F("Left", 8), F("Uploaded", 8), F("Event", 4), F("IP", 4), F("Key", 4), F("NumWant", 4), F("Port", 2)>>
    [] msg = "announceresp" -> <<F("Action", 4), F("TransactionID", 4), F("Interval", 4), F("Leechers", 4), F("Seeders", 4)>>
    [] msg = "scrape" -> <<F("ConnectionID", 8), F("Action", 4), F("TransactionID", 4)>>
    [] msg = "scraperesp" -> <<F("Action", 4), F("TransactionID", 4)>>
    [] msg = "error" -> <<F("Action", 4), F("TransactionID", 4)>>
\* the field that takes the rest, in units of so many bytes
NoRest == F("", 0)
Rest(msg) ==
  CASE msg = "announceresp" -> F("Peers", 1) [] msg = "scrape" -> F("InfoHashes", 20)
    [] msg = "scraperesp" -> F("Info", 12) [] msg = "error" -> F("ErrorString", 1) [] OTHER -> NoRest

RECURSIVE Before(_, _)
Before(lay, i) == IF i = 1 THEN 0 ELSE Before(lay, i - 1) + lay[i - 1].w   \* the bytes before field i
Fixed(msg) == Before(Layout(msg), Len(Layout(msg)) + 1)

\* the wire form of a message
Wire(msg, f) ==
  FlattenSeq([i \in 1..Len(Layout(msg)) |-> f[Layout(msg)[i].n]]) \o (IF Rest(msg) = NoRest THEN <<>> ELSE f[Rest(msg).n])

\* the message in so many bytes; what is over is not part of it
Enough(msg, d) == Len(d) >= Fixed(msg)
Whole(msg, d) == ((Len(d) - Fixed(msg)) \div Rest(msg).w) * Rest(msg).w
Message(msg, d) ==
  LET lay == Layout(msg)
      part == [i \in 1..Len(lay) |-> SubSeq(d, Before(lay, i) + 1, Before(lay, i) + lay[i].w)]
      rest == SubSeq(d, Fixed(msg) + 1, Fixed(msg) + Whole(msg, d))
  IN [n \in {lay[i].n : i \in 1..Len(lay)} \cup (IF Rest(msg) = NoRest THEN {} ELSE {Rest(msg).n}) |->
        IF n = Rest(msg).n THEN rest ELSE part[CHOOSE i \in 1..Len(lay) : lay[i].n = n]]
=============================================================================
