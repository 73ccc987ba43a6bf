--------------------------- MODULE MCRpcSchedule ---------------------------
(***************************************************************************)
(* Generates schedules of remote calls from UpdRpc, to be replayed into    *)
(* real callers and callees (as MCSchedule does for dispatchers).          *)
(*                                                                         *)
(* Operations: [op |-> "call", j], [op |-> "stray", w],                    *)
(* [op |-> "feed" / "flush", n], [op |-> "serve" / "take" / "move"].       *)
(***************************************************************************)
EXTENDS UpdRpc, Json, IOUtils

Config == JsonDeserialize(IOEnv.KEYRINGS)
ScheduleKeyrings == Config.keyrings
Plan == JsonDeserialize(IOEnv.SCHEDULE)  \* [mode, depth, kind, calls, strays, ops]

VARIABLES hist, strays
vars == <<rvars, hist, strays>>

Zeros(n) == [i \in 1..n |-> 0]
Env(js) == [k \in DOMAIN js |-> [x |-> 0, r |-> Zeros(K.fn[js[k]].rs)]]
First(js) == SubSeq(js, 1, Min2(1, Len(js)))
In == IF Plan.kind = "plain" THEN <<>> ELSE disp[Callee].in
Valid(bs) == Len(bs) >= K.iw /\ FunctionOf(K, SubSeq(bs, 1, K.iw)) # 0

Do(o) ==
  CASE o.op = "call" -> Len(sent) < Plan.calls /\ RCall(o.j + 1, Zeros(K.fn[o.j + 1].as))
    [] o.op = "stray" -> strays < Plan.strays /\ RStray(o.w)
    [] o.op = "feed" -> o.n <= Len(up) /\ RFeed(o.n, Env(Executed(In, SubSeq(up, 1, o.n))))
    [] o.op = "flush" -> o.n <= Len(disp[Callee].out) /\ RFlush(o.n)
    [] o.op = "serve" -> up # <<>> /\ RServe(IF Valid(In \o up) THEN Env(First(Executed(In, up))) ELSE <<>>)
    [] o.op = "take" -> RTake
    [] o.op = "move" -> RMove

ScheduleInit ==
  /\ disp = (Callee :> NewDisp(1, Plan.kind, "any"))
  /\ cnt = <<>> /\ obs = [op |-> "init"]
  /\ up = <<>> /\ down = <<>> /\ sent = <<>> /\ done = <<>> /\ taken = 0 /\ got = <<>>
  /\ hist = <<>> /\ strays = 0
ScheduleNext ==
  /\ Len(hist) < Plan.depth
  /\ \E k \in DOMAIN Plan.ops :
       /\ Do(Plan.ops[k])
       /\ hist' = Append(hist, k)
       /\ strays' = IF Plan.ops[k].op = "stray" THEN strays + 1 ELSE strays
       /\ (Plan.mode = "edges" \/ Len(hist') = Plan.depth) => PrintT(<<"SCHEDULE", hist'>>)
ScheduleSpec == ScheduleInit /\ [][ScheduleNext]_vars
ScheduleView == IF Plan.mode = "edges" THEN <<disp, up, down, sent, taken, strays>> ELSE <<disp, up, hist>>
=============================================================================
