------------------------------ MODULE LibTrace ------------------------------
(***************************************************************************)
(* The message and bencoding packages called with arbitrary values.  A     *)
(* dictionary under construction is a stack of the dictionaries open in    *)
(* it, each the pairs it has so far.                                       *)
(***************************************************************************)
EXTENDS UdpCodec, TLC, Json, IOUtils
B == INSTANCE Bencode

CONSTANT Aspects
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES
  l,
  kept, \* the last result a caller has kept
  stk   \* the open dictionaries, outermost first: [k |-> its key, d |-> its pairs]
Ev == Trace[l]
A(x) == x \in Aspects
Chk(x, ok) == A(x) => ok
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1

\* ---- messages
Marshal ==
  /\ Is("marshal") /\ UNCHANGED stk /\ kept' = IF Ev.how = "ok" THEN Ev.out ELSE kept
  /\ Chk("codec", Ev.how = "ok" /\ Ev.out = Wire(Ev.msg, Ev.f) /\ Ev.f2 = Ev.f)
Unmarshal ==
  /\ Is("unmarshal") /\ UNCHANGED <<stk, kept>>
  /\ Chk("codec", IF Enough(Ev.msg, Ev.in) THEN Ev.how = "ok" /\ Ev.f = Message(Ev.msg, Ev.in) ELSE Ev.how = "error")
  /\ Chk("codec", Ev.in2 = Ev.in)

\* what has been read does not change with the bytes it was read from
Unmarshalled == Is("unmarshalled") /\ UNCHANGED <<stk, kept>> /\ Chk("codec", Ev.f = Message(Ev.msg, Ev.in))

\* a result is its caller's: later calls leave it alone
Recall == Is("recall") /\ UNCHANGED <<stk, kept>> /\ (A("codec") \/ A("bencoding") => Ev.out = kept)

\* ---- dictionaries: type m is a map, whose pairs come in any order
Top == stk[Len(stk)]
Add(s, k, v) == [s EXCEPT ![Len(s)].d = Append(@, [k |-> k, v |-> v])]
RECURSIVE Fits(_, _)
Fits(e, v) ==
  CASE e.t = "m" -> v.t = "d" /\ Len(v.d) = Len(e.d) /\ \A i \in 1..Len(e.d) : \E j \in 1..Len(v.d) : v.d[j].k = e.d[i].k /\ Fits(e.d[i].v, v.d[j].v)
    [] e.t = "d" -> v.t = "d" /\ Len(v.d) = Len(e.d) /\ \A i \in 1..Len(e.d) : v.d[i].k = e.d[i].k /\ Fits(e.d[i].v, v.d[i].v)
    [] OTHER -> v = e

New == UNCHANGED kept /\ Is("new") /\ stk' = <<[k |-> <<>>, d |-> <<>>]>>
PutV == UNCHANGED kept /\ Is("put") /\ stk' = Add(stk, Ev.k, Ev.v)
Open == UNCHANGED kept /\ Is("open") /\ stk' = Append(stk, [k |-> Ev.k, d |-> <<>>])
Close == UNCHANGED kept /\ Is("close") /\ stk' = Add(SubSeq(stk, 1, Len(stk) - 1), Top.k, [t |-> "d", d |-> Top.d])
\* what cannot be encoded is refused and leaves the dictionary as it was
Refused == Is("refused") /\ Chk("bencoding", Ev.how = "error") /\ UNCHANGED <<stk, kept>>
Get ==
  /\ Is("get") /\ UNCHANGED stk /\ kept' = Ev.out
  /\ Chk("bencoding", Len(stk) = 1 /\ \E v \in {TLCEval(B!Bdec(Ev.out))} : v # B!Bad /\ Fits([t |-> "d", d |-> Top.d], v))

Mark == TLCSet(1, IF l' > TLCGet(1) THEN l' ELSE TLCGet(1))
Accepted ==
  LET m == TLCGet(1) IN
  IF m = Len(Trace) + 1 THEN PrintT(<<"ACCEPTED", Len(Trace)>>)
  ELSE PrintT(<<"REJECTED", m>>) /\ FALSE
ASSUME TLCSet(1, 2)
Caller == Is("caller") /\ stk' = <<>> /\ kept' = <<>>
TSpec == l = 2 /\ stk = <<>> /\ kept = <<>> /\ [][(Caller \/ Recall \/ Unmarshalled \/ Marshal \/ Unmarshal \/ New \/ PutV \/ Open \/ Close \/ Refused \/ Get) /\ Mark]_<<l, stk, kept>>
=============================================================================
