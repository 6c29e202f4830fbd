---------------------------- MODULE ListenTrace ----------------------------
(***************************************************************************)
(* Starts of the real process under settings that say where to listen, and *)
(* what then answers on which address of the machine.                      *)
(***************************************************************************)
EXTENDS Listen, TLC, Json, IOUtils

CONSTANT Aspects
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
A(x) == x \in Aspects
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1

TMachine == Is("machine") /\ Machine(Range(Ev.addrs))

\* every socket it waits on belongs to one of its servers, and no address is
\* given that nobody asked for
Port(c, on) == CASE on = "http" -> c.hport [] on = "udp" -> c.uport [] on = "pprof" -> c.pprof
Proto(on) == IF on = "udp" THEN "udp" ELSE "tcp"
Rightful(c, s) ==
  \E on \in Servers :
    LET n == Needs(c, on) IN
    /\ Gets(n) /\ s.proto = Proto(on) /\ s.port = Port(c, on)
    /\ \/ s.ip \in n.at
       \/ s.ip \in Unspecified /\ n.at = addrs

TStart ==
  /\ Is("bind")
  /\ Start(Ev)
  /\ A("listen") =>
       /\ Ev.up = Works(Ev)
       /\ ~Ev.up => Ev.code # 0
       /\ Range(Ev.reach) = open'
       /\ \A i \in 1..Len(Ev.socks) : Rightful(Ev, Ev.socks[i])

\* a signal ended it: nothing of it answers any more
TStop ==
  /\ Is("unbind")
  /\ Stop
  /\ A("listen") => Ev.gone /\ Ev.code = 0 /\ Range(Ev.reach) = open'

Mark == TLCSet(1, IF l' > TLCGet(1) THEN l' ELSE TLCGet(1))
Accepted ==
  LET m == TLCGet(1) IN
  IF m = Len(Trace) + 1 THEN PrintT(<<"ACCEPTED", Len(Trace)>>)
  ELSE PrintT(<<"REJECTED", m>>) /\ FALSE
ASSUME TLCSet(1, 2)
TSpec == l = 2 /\ addrs = {} /\ open = {} /\ [][(TMachine \/ TStart \/ TStop \/ (Is("reset") /\ UNCHANGED lvars)) /\ Mark]_<<lvars, l>>
=============================================================================
