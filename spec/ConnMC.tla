------------------------------- MODULE ConnMC -------------------------------
(***************************************************************************)
(* The connection part of Tracker over a few sources, exhaustively: ids    *)
(* are issued, used by anyone, expire, are saved and reloaded.  The clock  *)
(* stands still and everything else ages.  `act` is the operation just     *)
(* performed, for the driver; `hist` remembers what was issued when,       *)
(* independently of conns.                                                 *)
(***************************************************************************)
EXTENDS Tracker

CONSTANTS Srcs, Steps, Expiry, TrimEvery, WithSave

VARIABLES act, hist, savedHist, cl

mcvars == <<vars, act, hist, savedHist, cl>>

Never == [never |-> TRUE]
Foreign == <<<<"nobody", 0>>, 0>>
J(e) == "{\"e\":\"" \o e \o "\""
JF(k, v) == ",\"" \o k \o "\":\"" \o v \o "\""
JN(k, v) == ",\"" \o k \o "\":" \o ToString(v)
JS(k1, k2, s) == JF(k1, s[1]) \o JN(k2, s[2])

MInit ==
  /\ now = 0 /\ cfg = [connexpiry |-> Expiry, conntrim |-> TrimEvery, validate |-> TRUE]
  /\ swarm = Empty /\ crowd = Empty /\ conns = Empty /\ ctr = ZeroCtr
  /\ saved = NoBackup /\ savedConns = Empty
  /\ act = "{\"e\":\"start\"}"
  /\ hist = [s \in Srcs |-> Never] /\ savedHist = hist
  /\ cl = [s \in Srcs |-> -1]      \* which of its two ids a client got last

Rest == UNCHANGED <<now, cfg, swarm, crowd, ctr, saved>>

Connect(s) ==
  LET k == IF cl[s] = 1 THEN 0 ELSE 1 IN
  /\ DoConnect(s, <<s, k>>)
  /\ hist' = [hist EXCEPT ![s] = [k |-> k, age |-> 0]]
  /\ cl' = [cl EXCEPT ![s] = k]
  /\ act' = J("connect") \o JS("src", "k", s) \o "}"
  /\ UNCHANGED <<savedConns, savedHist>> /\ Rest

\* s uses an id: the last, the one before, or one nobody was given
Id(of, which) == CASE which = "cur" -> <<of, cl[of]>> [] which = "prev" -> <<of, 1 - cl[of]>> [] OTHER -> Foreign
Use(s, of, which) ==
  /\ which # "forged" => cl[of] >= 0
  /\ which = "forged" => of = s
  /\ act' = J("use") \o JS("src", "k", s) \o JS("of", "ofk", of) \o JF("id", which) \o "}"
  /\ UNCHANGED <<conns, savedConns, hist, savedHist, cl>> /\ Rest

Clamp(a) == IF a > Expiry + TrimEvery THEN Expiry + TrimEvery + 1 ELSE a
AgeC(cs, d) == [s \in DOMAIN cs |-> [cs[s] EXCEPT !.t = 0 - Clamp(d - @)]]
AgeH(hs, d) == [s \in DOMAIN hs |-> IF hs[s] = Never THEN Never ELSE [hs[s] EXCEPT !.age = Clamp(@ + d)]]
\* time passes, to an instant at which no id is between its expiry and the
\* next pass; the passes due have run
Adv(d) ==
  LET c == AgeC(conns, d)
      h == AgeH(hist, d)
      Settled(a) == a <= Expiry \/ a > Expiry + TrimEvery
  IN
  /\ DOMAIN conns # {} \/ DOMAIN savedConns # {}
  /\ \A s \in DOMAIN c : Settled(0 - c[s].t)
  /\ conns' = ConnTrimmedAt(c, 0)
  /\ hist' = [s \in Srcs |-> IF h[s] = Never \/ h[s].age > Expiry THEN Never ELSE h[s]]
  /\ savedConns' = AgeC(savedConns, d)
  /\ savedHist' = AgeH(savedHist, d)
  /\ act' = J("adv") \o JN("d", d) \o "}"
  /\ UNCHANGED cl /\ Rest

SaveC == /\ WithSave /\ DoSaveConns /\ savedHist' = hist
         /\ act' = J("saveconns") \o "}"
         /\ UNCHANGED <<conns, hist, cl>> /\ Rest
\* what is saved must not be stale then: whether a stale id survives until
\* the first pass is not pinned
Reboot == /\ WithSave
          /\ \A s \in DOMAIN savedConns : 0 - savedConns[s].t <= Expiry
          /\ conns' = savedConns /\ hist' = savedHist
          /\ act' = J("reboot") \o "}"
          /\ UNCHANGED <<savedConns, savedHist, cl>> /\ Rest

MNext ==
  \/ \E s \in Srcs : Connect(s)
  \/ \E s, o \in Srcs, w \in {"cur", "prev", "forged"} : Use(s, o, w)
  \/ \E d \in Steps : Adv(d)
  \/ SaveC \/ Reboot

MSpec == MInit /\ [][MNext]_mcvars

\* C10: an id is good iff it is the one last issued to that very source
C10 == \A s \in Srcs, o \in Srcs, k \in {0, 1} :
         ConnValid(s, <<o, k>>) <=> (o = s /\ hist[s] # Never /\ hist[s].k = k)
\* C11: and young enough, with the age counted from when it was issued
C11 == \A s \in DOMAIN conns : 0 - conns[s].t = hist[s].age
C11b == [][\A s \in Srcs : (hist[s] # Never /\ hist'[s] = Never) => \/ hist[s].age + Max(Steps) > Expiry
                                                                  \/ act' = J("reboot") \o "}"]_mcvars
Foreigners == ~\E s \in Srcs : ConnValid(s, Foreign)

\* sources: two sockets of one address, one of another
S1 == {<<"i1", 0>>}
S3 == {<<"i1", 0>>, <<"i1", 1>>, <<"i2", 0>>}
S2 == {<<"i1", 0>>, <<"i2", 0>>}
S2p == {<<"i1", 0>>, <<"i1", 1>>}
S2v == {<<"i1", 0>>, <<"j1", 0>>}
MCDict == [x \in {} |-> x]
=============================================================================
