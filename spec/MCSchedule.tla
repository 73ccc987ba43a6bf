----------------------------- MODULE MCSchedule -----------------------------
(***************************************************************************)
(* Generates schedules of operations from UpdDispatcher, to be replayed    *)
(* into the real dispatchers: either every schedule of a given length      *)
(* (Mode "all"), or, for every transition of the state graph, a shortest   *)
(* schedule which ends with it (Mode "edges").                             *)
(*                                                                         *)
(* The alphabet comes with the keyring: a sequence of operations.  An      *)
(* operation is taken only where the specification allows it.              *)
(***************************************************************************)
EXTENDS UpdDispatcher, Json, IOUtils

Config == JsonDeserialize(IOEnv.KEYRINGS)
ScheduleKeyrings == Config.keyrings
Plan == JsonDeserialize(IOEnv.SCHEDULE)  \* [mode, depth, new |-> <<[d, kind, pol]>>, ops |-> <<records>>]

VARIABLE hist
vars == <<dvars, hist>>

Zero(K, j) == [x |-> 0, r |-> [i \in 1..K.fn[j].rs |-> 0]]
Throw == [x |-> 1, r |-> <<>>]

RECURSIVE Answers(_, _, _, _, _)
(* What the callbacks invoked by the reception of bs do: answer zeros, the arm-th one throws *)
Answers(K, in, bs, arm, k) ==
  IF bs = <<>> THEN <<>>
  ELSE LET in2 == Append(in, Head(bs))
           j == IF Len(in2) >= K.iw THEN FunctionOf(K, SubSeq(in2, 1, K.iw)) ELSE 0 IN
       IF Len(in2) < K.iw THEN Answers(K, in2, Tail(bs), arm, k)
       ELSE IF j = 0 THEN Answers(K, <<>>, Tail(bs), arm, k)
       ELSE IF Len(in2) < K.iw + K.fn[j].as THEN Answers(K, in2, Tail(bs), arm, k)
       ELSE <<IF k = arm THEN Throw ELSE Zero(K, j)>> \o Answers(K, <<>>, Tail(bs), arm, k + 1)
Env(d, bs, arm) == Answers(KR[disp[d].kr], disp[d].in, bs, arm, 1)

(* put() and chains of it must not meet a pending response in a single buffer *)
Drained(d, bs, arm) ==
  IF disp[d].kind = "double" THEN TRUE ELSE
    LET a == Receive(disp[d], SubSeq(bs, 1, Len(bs) - 1), Env(d, bs, arm), FALSE) IN
      Loaded(a.s) = 0 /\ a.used = Len(bs) - 1

Do(o) ==
  /\ o.d \in DOMAIN disp
  /\ CASE o.op = "put" -> Drained(o.d, o.b, o.arm) /\ Put(o.d, o.b, Env(o.d, o.b, o.arm))
       [] o.op = "rd" -> ReadFrom(o.d, o.b, Env(o.d, o.b, o.arm))
       [] o.op = "call" -> Process(o.d, o.b, Env(o.d, o.b, o.arm), o.lim)
       [] o.op = "get" -> Get(o.d, o.n)
       [] o.op = "wr" -> WriteTo(o.d, o.lim)
       [] o.op = "rep" -> Replace(o.d, o.i, 100 + o.f)
       [] o.op = "mv" -> o.d2 # o.d /\ Move(o.d, o.d2)
       [] o.op = "cp" -> o.d2 # o.d /\ Copy(o.d, o.d2)
       [] o.op = "act" -> RunAction(o.d, o.i, o.b, <<Zero(KR[1], o.i + 1)>>, 0)
       [] o.op = "reply" ->
            LET K2 == KR[2]  s == disp[o.d]  fits == ReplyFits(s, K2, o.j + 1)
                bytes == EncIndex(o.j, K2.iw, K2.en) \o s.out \o [i \in 1..(K2.fn[o.j + 1].as - Len(s.out)) |-> 0] IN
              Reply(o.d, 2, o.j + 1, IF fits THEN Handed(bytes, o.lim) ELSE <<>>,
                    fits /\ ~ReplyFails(s, K2, o.j + 1, o.lim), o.lim)

ScheduleInit ==
  /\ disp = [d \in {n.d : n \in Range(Plan.new)} |->
               LET n == CHOOSE x \in Range(Plan.new) : x.d = d IN NewDisp(1, n.kind, n.pol)]
  /\ cnt = <<>> /\ obs = [op |-> "init"] /\ hist = <<>>

ScheduleNext ==
  /\ Len(hist) < Plan.depth
  /\ \E k \in DOMAIN Plan.ops :
       /\ Do(Plan.ops[k])
       /\ hist' = Append(hist, k)
       /\ (Plan.mode = "edges" \/ Len(hist') = Plan.depth) => PrintT(<<"SCHEDULE", hist'>>)

ScheduleSpec == ScheduleInit /\ [][ScheduleNext]_vars
ScheduleView == IF Plan.mode = "edges" THEN <<disp>> ELSE <<disp, hist>>
=============================================================================
