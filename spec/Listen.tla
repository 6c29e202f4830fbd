------------------------------- MODULE Listen -------------------------------
(***************************************************************************)
(* Where a tracker is to be found.  A machine has addresses; other         *)
(* programs may hold ports.  A start asks for the sockets its settings     *)
(* name; it gets them all, or the start fails - except that the debug      *)
(* server and the static pages of info mode are done without.              *)
(***************************************************************************)
EXTENDS NetAddr, FiniteSets

VARIABLES
  addrs,  \* the machine's addresses
  open    \* what the running tracker answers on: a set of [on, ip], {} if none runs

lvars == <<addrs, open>>

\* the addresses a setting stands for; {} if it names none of the machine's
Unspecified == {<<0, 0, 0, 0>>, Zeros(16)}
Everywhere(text) == text = <<>> \/ ParseAddr(text).b \in Unspecified
Named(text) == IF Everywhere(text) THEN addrs ELSE addrs \cap {Unmapped(ParseAddr(text).b)}

\* a server called `on`: wanted or not, the addresses it is to be on, whether someone else has its port
Needs(c, on) ==
  CASE on = "http" -> [want |-> c.http # "disabled", at |-> Named(c.hip), held |-> c.heldh, must |-> c.http = "enabled"]
    [] on = "udp" -> [want |-> c.udp, at |-> Named(c.uip), held |-> c.heldu, must |-> TRUE]
    [] on = "pprof" -> [want |-> c.pprof # 0, at |-> {<<127, 0, 0, 1>>}, held |-> c.heldp, must |-> FALSE]
Servers == {"http", "udp", "pprof"}
Gets(n) == n.want /\ ~n.held /\ n.at # {}

\* the start works unless a server it cannot do without gets no socket
Works(c) == \A s \in Servers : LET n == Needs(c, s) IN n.want /\ n.must => Gets(n)
Open(c) == UNION {IF Gets(Needs(c, s)) THEN {[on |-> s, ip |-> a] : a \in Needs(c, s).at} ELSE {} : s \in Servers}

Machine(as) == addrs' = as /\ open' = {}
Start(c) == open = {} /\ open' = (IF Works(c) THEN Open(c) ELSE {}) /\ addrs' = addrs
Stop == open' = {} /\ addrs' = addrs
=============================================================================
