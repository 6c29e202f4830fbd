------------------------------- MODULE Server ------------------------------
(***************************************************************************)
(* The two servers: what a datagram or an HTTP request does to the state   *)
(* of Tracker, and which replies it may get.  Torrents and peers are their *)
(* 20 bytes, addresses their 4 or 16 bytes, UDP sources <<address, port>>. *)
(*                                                                         *)
(* Every observation is guarded by Chk(aspect, condition): a check looks   *)
(* only at the aspects its property speaks of.                             *)
(***************************************************************************)
EXTENDS TraceBase

U == INSTANCE UdpWire
W == INSTANCE HttpWire
N == INSTANCE NetAddr

\* a count in four bytes / in digits
Is4(b, n) == b = U!Num4(n)
IsDigits(v, n) == v = W!BInt(n)

Count(S) == [k \in DOMAIN ctr |-> ctr[k] + (IF k \in S THEN 1 ELSE 0)]
Counted(S) == ctr' = Count(S)

IntervalOk4(b) == ~U!Neg4(b) /\ IntervalOk(U!Val4(b))
IntervalOkDigits(v) == v.t = "i" /\ Len(v.n) <= 9 /\ W!AllDigits(v.n) /\ IntervalOk(W!DecVal(v.n))

\* a packed peer list of one family, against the swarms sw
CompactIn(sw, h, f, list, n) ==
  LET v(p) == EndpointBytes(sw[h][p])
  IN ListOk(h, {p \in DOMAIN sw[h] : Family(sw[h][p].ip) = f}, f, v, list, n)

----------------------------------------------------------------------------
(* UDP                                                                     *)
One(rs) == Len(rs) = 1
Refused(rs, d) == One(rs) /\ U!IsError(rs[1], U!UTx(d))

\* one error reply with the request's transaction id, and no effect
Refuse(aspect, rs, d, more) ==
  /\ Chk(aspect, Refused(rs, d))
  /\ Counted({"hits", "cerr"} \cup more)
  /\ Same({"ctr"})

UConnect(src, d, rs) ==
  /\ Chk("udp", One(rs) /\ U!IsConnectReply(rs[1], U!UTx(d)))
  /\ Counted({"hits", "connects"})
  /\ IF One(rs) /\ Len(rs[1]) = 16
     THEN /\ DoConnect(src, U!B8(rs[1], 9))
          \* an id in use by one source is not given to another
          /\ Chk("gate", \A s \in DOMAIN conns : s # src => conns[s].id # U!B8(rs[1], 9))
     ELSE conns' = conns
  /\ Same({"ctr", "conns"})

UHeartbeat(rs) ==
  /\ Chk("udp", rs = <<U!HeartbeatReply>>)
  /\ Counted({"hits"})
  /\ Same({"ctr"})

Honoured(rs, d, act) == One(rs) /\ U!RAct(rs[1]) = act /\ U!RTx(rs[1]) = U!UTx(d)

UStop(d, rs) ==
  /\ Chk("gate", Honoured(rs, d, U!ActAnnounce))
  /\ Chk("udp", One(rs) /\ U!IsAnnounceReply(rs[1], U!UTx(d)) /\ Len(rs[1]) = 20)
  /\ DoStop(U!UHash(d), U!UPeer(d))
  /\ Counted({"hits", "announces"})
  /\ Same({"ctr", "swarm"})

UAnnounce(src, d, rs) ==
  \E sw \in {TLCEval(Announced(swarm, U!UHash(d), U!UPeer(d), src[1], U!UPort(d), U!ULeftZero(d) \/ U!UCompleted(d)))} :
  LET h == U!UHash(d)
      ip == src[1]
      w == IF Len(ip) = 4 THEN 6 ELSE 18
      f == IF Len(ip) = 4 THEN 4 ELSE 6
  IN
  /\ swarm' = sw
  /\ Chk("gate", Honoured(rs, d, U!ActAnnounce))
  /\ Chk("udp", One(rs) /\ U!IsAnnounceReply(rs[1], U!UTx(d)) /\ (Len(rs[1]) - 20) % w = 0)
  /\ (One(rs) /\ U!IsAnnounceReply(rs[1], U!UTx(d))) =>
       LET r == rs[1] IN
       /\ Chk("interval", IntervalOk4(U!RInterval(r)))
       /\ Chk("counts", Is4(U!RSeeders(r), CompleteIn(sw, crowd, h)) /\ Is4(U!RLeechers(r), IncompleteIn(sw, crowd, h)))
       /\ Chk("lists", (Len(r) - 20) % w = 0
                       /\ \E list \in {TLCEval(U!RPeers(r, w))} :
                          \E m \in {U!RFit(w)} : \E n \in m - 2 .. m + 2 :
                            CompactIn(sw, h, f, list, Least(n, Bound(U!UAsked(d), U!UHasNumwant(d)))))
       /\ Chk("family", /\ (Len(r) - 20) % w = 0
                        /\ HasCrowd(h) \/ \A k \in 1..((Len(r) - 20) \div w) :
                             \E p \in DOMAIN sw[h] : EndpointBytes(sw[h][p]) = U!RPeers(r, w)[k])
  /\ Counted({"hits", "announces"})
  /\ Same({"ctr", "swarm"})

UScrape(d, rs) ==
  LET hs == U!UHashes(d)
      n == Len(hs)
  IN
  /\ Chk("gate", Honoured(rs, d, U!ActScrape))
  /\ Chk("udp", One(rs) /\ U!IsScrapeReply(rs[1], U!UTx(d), n))
  /\ (One(rs) /\ U!IsScrapeReply(rs[1], U!UTx(d), n)) =>
       Chk("counts", \A k \in 1..n : LET t == U!RTriple(rs[1], k) IN
                       Is4(t.s, Complete(hs[k])) /\ Is4(t.l, Incomplete(hs[k])))
  /\ Counted({"hits", "scrapes"})
  /\ Same({"ctr"})

\* a datagram from src and all it got back
Datagram(src, data, rs) ==
  \E d \in {TLCEval(U!Cut(data))} : \E kind \in {U!UKind(d)} :
  LET ok == ~cfg.validate \/ ConnValid(src, U!UConn(d))
  IN
  CASE kind = "short" -> Chk("refuse", rs = <<>>) /\ Same({})
    [] kind = "unknown" -> Refuse("refuse", rs, d, {})
    [] kind = "connect" -> UConnect(src, d, rs)
    [] kind = "heartbeat" -> UHeartbeat(rs)
    [] kind \in {"announce", "scrape", "error"} /\ ~ok -> Refuse("gate", rs, d, {})
    \* an error action is no request; whether it gets a reply is left open
    [] kind = "error" /\ ok ->
         /\ Chk("refuse", rs = <<>> \/ Refused(rs, d))
         /\ Counted(IF rs = <<>> THEN {"hits"} ELSE {"hits", "cerr"})
         /\ Same({"ctr"})
    [] kind = "announce" /\ ok ->
         IF Len(d) < 98 THEN Refuse("refuse", rs, d, {})
         ELSE IF U!UPort(d) = 0 THEN Refuse("refuse", rs, d, {"announces"})
         ELSE IF U!UStop(d) THEN UStop(d, rs)
         ELSE UAnnounce(src, d, rs)
    [] OTHER -> UScrape(d, rs)

----------------------------------------------------------------------------
(* HTTP                                                                    *)
Is200(r) == W!Status(r) = W!S200 /\ W!HasBody(r)
BodyValue(r) == W!Bdec(W!Body(r))
IsFailure(r) == Is200(r) /\ W!IsDict(BodyValue(r)) /\ W!Keys(BodyValue(r)) = {W!B_failure}
                /\ W!At(BodyValue(r), W!B_failure).t = "s"

\* refused with a failure reason, no effect
Fail(aspect, r, more) ==
  /\ Chk(aspect, IsFailure(r))
  /\ Chk("bencode", Is200(r) => W!IsDict(BodyValue(r)))
  /\ Counted({"hits", "cerr"} \cup more)
  /\ Same({"ctr"})

\* non-compact entries are strings, each a bencoded dictionary
EntryOf(x, nopid) ==
  LET b == IF x.t = "s" THEN W!Bdec(x.v) ELSE W!Bad IN
  IF ~W!IsDict(b) \/ ~W!Has(b, W!B_ip) \/ ~W!Has(b, W!B_port) THEN [bad |-> TRUE]
  ELSE LET ip == W!At(b, W!B_ip)
           port == W!At(b, W!B_port)
           a == IF ip.t = "s" THEN N!ParseAddr(ip.v) ELSE N!NoAddr
       IN IF ~a.ok \/ port.t # "i" \/ Len(port.n) > 6 \/ ~W!AllDigits(port.n) \/ (W!Has(b, W!B_pid) <=> nopid) THEN [bad |-> TRUE]
          ELSE [p |-> IF nopid THEN <<>> ELSE W!At(b, W!B_pid).v, ip |-> a.b, port |-> W!DecVal(port.n)]
EntriesOf(b, nopid) == [i \in 1..Len(b.l) |-> EntryOf(b.l[i], nopid)]
\* what a member looks like in such a list (of the swarm after the announce)
Shown(sw, h, p, nopid) == [p |-> IF nopid THEN <<>> ELSE p, ip |-> sw[h][p].ip, port |-> sw[h][p].port]
Chunks(s, w) == [k \in 1..(Len(s) \div w) |-> SubSeq(s, 1 + w * (k - 1), w * k)]

HAnnounced(q, ip, r) ==
  \E b \in {TLCEval(BodyValue(r))} :
  \E sw \in {TLCEval(Announced(swarm, q.hash, q.pid, ip, q.port, q.complete))} :
  LET h == q.hash
      n == Bound(q.num, q.hasnum)
      formed == /\ Is200(r) /\ W!IsDict(b)
                /\ {W!B_interval, W!B_complete, W!B_incomplete, W!B_peers} \subseteq W!Keys(b)
                /\ \A k \in W!Keys(b) : W!OnlyOnce(b, k)
                /\ IF q.compact THEN /\ W!Has(b, W!B_peers6)
                                     /\ W!At(b, W!B_peers).t = "s" /\ Len(W!At(b, W!B_peers).v) % 6 = 0
                                     /\ W!At(b, W!B_peers6).t = "s" /\ Len(W!At(b, W!B_peers6).v) % 18 = 0
                   ELSE /\ W!At(b, W!B_peers).t = "l"
                        /\ \A i \in 1..Len(W!At(b, W!B_peers).l) : EntryOf(W!At(b, W!B_peers).l[i], q.nopid) # [bad |-> TRUE]
      v(p) == Shown(sw, h, p, q.nopid)
  IN
  /\ swarm' = sw
  /\ Chk("validate", Is200(r) /\ ~IsFailure(r))
  /\ Chk("bencode", formed)
  /\ Chk("form", Is200(r) /\ W!IsDict(b) /\ W!Has(b, W!B_peers) =>
            IF q.compact THEN W!At(b, W!B_peers).t = "s" /\ W!Has(b, W!B_peers6)
            ELSE W!At(b, W!B_peers).t = "l" /\ \A i \in 1..Len(W!At(b, W!B_peers).l) : EntryOf(W!At(b, W!B_peers).l[i], q.nopid) # [bad |-> TRUE])
  /\ formed =>
       /\ Chk("interval", IntervalOkDigits(W!At(b, W!B_interval)))
       /\ Chk("counts", /\ IsDigits(W!At(b, W!B_complete), CompleteIn(sw, crowd, h))
                        /\ IsDigits(W!At(b, W!B_incomplete), IncompleteIn(sw, crowd, h)))
       /\ IF q.compact
          THEN LET l4 == Chunks(W!At(b, W!B_peers).v, 6)
                   l6 == Chunks(W!At(b, W!B_peers6).v, 18)
               IN /\ Chk("lists", CompactIn(sw, h, 4, l4, n) /\ CompactIn(sw, h, 6, l6, n))
                  /\ Chk("family", HasCrowd(h) \/
                                   /\ \A k \in 1..Len(l4) : \E p \in DOMAIN sw[h] : EndpointBytes(sw[h][p]) = l4[k]
                                   /\ \A k \in 1..Len(l6) : \E p \in DOMAIN sw[h] : EndpointBytes(sw[h][p]) = l6[k])
          ELSE LET es == EntriesOf(W!At(b, W!B_peers), q.nopid)
               IN /\ Chk("lists", ListOk(h, DOMAIN sw[h], 0, v, es, n))
                  /\ Chk("family", HasCrowd(h) \/ \A k \in 1..Len(es) : \E p \in DOMAIN sw[h] : v(p) = es[k])
  /\ Counted({"hits", "announces"})
  /\ Same({"ctr", "swarm"})

HAnnounce(req, from, r) ==
  \E q \in {TLCEval(W!AnnounceReq(req.params))} :
  LET fw == IF cfg.heroku THEN W!Forwarded(req.rest) ELSE [has |-> FALSE, ip |-> <<>>]
      a == IF fw.has THEN N!ZonedAddr(fw.ip) ELSE N!Addr(from)
  IN
  IF ~a.ok THEN Fail("forward", r, {})
  ELSE IF ~q.ok THEN Fail("validate", r, {"announces"})
  ELSE IF q.stop
  THEN /\ DoStop(q.hash, q.pid)
       /\ Chk("validate", Is200(r) /\ ~IsFailure(r))
       /\ Chk("bencode", Is200(r) /\ (W!Body(r) = <<>> \/ W!IsDict(BodyValue(r))))
       /\ Counted({"hits", "announces"}) /\ Same({"ctr", "swarm"})
  ELSE HAnnounced(q, N!Unmapped(a.b), r)

HScrape(req, r) ==
  \E hs \in {TLCEval(W!ScrapeHashes(req.params))}, b \in {TLCEval(BodyValue(r))} :
  LET files == W!At(b, W!B_files)
      formed == Is200(r) /\ W!IsDict(b) /\ W!Keys(b) = {W!B_files} /\ files.t = "d"
  IN
  IF hs = <<>> THEN Fail("scrape", r, {})
  ELSE IF \E i \in 1..Len(hs) : Len(hs[i]) # 20 THEN Fail("scrape", r, {"scrapes"})
  ELSE
    /\ Chk("bencode", formed)
    /\ Chk("scrape", formed /\ W!Keys(files) = {hs[i] : i \in 1..Len(hs)})
    /\ formed => \A i \in 1..Len(files.d) :
         LET e == files.d[i].v
             h == files.d[i].k
             ok == e.t = "d" /\ W!Has(e, W!B_complete) /\ W!Has(e, W!B_incomplete)
         IN /\ Chk("bencode", ok)
            /\ ok => Chk("counts", /\ IsDigits(W!At(e, W!B_complete), Complete(h))
                                   /\ IsDigits(W!At(e, W!B_incomplete), Incomplete(h)))
    /\ Counted({"hits", "scrapes"})
    /\ Same({"ctr"})

\* what a request for a path is entitled to: the embedded files by checksum
FileShas(path) == UNION {{f.raw, f.min} : f \in {x \in {Dict.files[i] : i \in 1..Len(Dict.files)} : x.path = path}}

\* a request from an address, its reply, the checksum of the reply's body and
\* whether that is one JSON object
Request(from, data, r, sha, doc) ==
  \E req \in {TLCEval(W!HttpParse(data))} :
  IF ~req.ok THEN Chk("route", W!Status(r) = W!S400) /\ Counted({"hits"}) /\ Same({"ctr"})
  ELSE IF req.path = W!S_announce THEN HAnnounce(req, from, r)
  ELSE IF req.path = W!S_scrape THEN HScrape(req, r)
  ELSE
    /\ Counted({"hits"}) /\ Same({"ctr"})
    /\ Chk("route", CASE req.path \in {W!S_heartbeat, W!S_stats} -> W!Status(r) = W!S200
                      [] FileShas(req.path) # {} -> W!Status(r) = W!S200
                      [] OTHER -> W!Status(r) = W!S404)
    /\ Chk("statistics", req.path = W!S_stats => doc)
    /\ Chk("files", FileShas(req.path) # {} => W!Status(r) = W!S200 /\ sha \in FileShas(req.path))
=============================================================================
