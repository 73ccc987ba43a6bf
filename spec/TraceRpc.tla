------------------------------ MODULE TraceRpc ------------------------------
(***************************************************************************)
(* Is a recorded conversation between a real caller and a real callee a    *)
(* behaviour of UpdRpc?  Only its ends are compared: the calls made, the   *)
(* executions and the values obtained, never the bytes in between.         *)
(***************************************************************************)
EXTENDS UpdRpc, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Config == JsonDeserialize(IOEnv.KEYRINGS)
TraceKeyrings == Config.keyrings
Watch == Range(Config.watch)

VARIABLE l
vars == <<rvars, l>>
ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ ev.e = e /\ l' = l + 1
Report(f, expected, actual) ==
  PrintT(<<"MISMATCH", l, ev.e, f, "EXPECTED", expected, "ACTUAL", actual>>)
Same(f, expected, actual) ==
  f \in Watch => (expected = actual \/ (Report(f, expected, actual) /\ FALSE))

Calls0(inv) == [k \in DOMAIN inv |-> inv[k].cb]
Args0(inv) == [k \in DOMAIN inv |-> inv[k].a]
SameInv(inv) == Same("calls", Calls0(obs'.inv), Calls0(inv)) /\ Same("args", Args0(obs'.inv), Args0(inv))
(* What the callbacks returned; too few of them is reported, not taken as a refusal of the action *)
Answers(js) == [k \in DOMAIN js |-> IF k <= Len(ev.inv) /\ Len(ev.inv[k].r) = K.fn[js[k]].rs THEN [x |-> 0, r |-> ev.inv[k].r]
                                    ELSE [x |-> 0, r |-> [i \in 1..K.fn[js[k]].rs |-> 0]]]

TraceInit == RInit /\ l = 1
TReset == IsEvent("reset") /\ disp' = <<>> /\ cnt' = <<>> /\ obs' = [op |-> "reset"]
          /\ up' = <<>> /\ down' = <<>> /\ sent' = <<>> /\ done' = <<>> /\ taken' = 0 /\ got' = <<>>
TNew == IsEvent("new") /\ RNew(ev.kind, ev.pol)
TCall == IsEvent("rcall") /\ RCall(ev.j + 1, ev.a)
TStray == IsEvent("rstray") /\ RStray(ev.b)
TFeed == IsEvent("rfeed") /\ RFeed(ev.n, Answers(Executed(disp[Callee].in, SubSeq(up, 1, ev.n)))) /\ SameInv(ev.inv)
TFlush == IsEvent("rflush") /\ RFlush(ev.n)
FirstExecuted == LET js == Executed(disp[Callee].in, up)
                     w == IF Len(disp[Callee].in \o up) >= K.iw THEN FunctionOf(K, SubSeq(disp[Callee].in \o up, 1, K.iw)) ELSE 0 IN
                   IF w = 0 THEN <<>> ELSE SubSeq(js, 1, Min2(1, Len(js)))
TServe == IsEvent("rserve") /\ RServe(Answers(FirstExecuted)) /\ SameInv(ev.inv)
TTake == IsEvent("rtake") /\ RTake /\ ev.j + 1 = NextCall.j
         /\ Same("answered", "R", ev.st)
         /\ IF "h" \in DOMAIN ev
            THEN /\ Same("value", <<5000 + ev.h>>, Calls0(ev.inv))
                 /\ Same("value", <<obs'.v>>, Args0(ev.inv))
            ELSE Same("value", obs'.v, ev.v)
TMove == IsEvent("mv") /\ ev.d = ev.d2 /\ RMove
TReplace == IsEvent("rep") /\ RReplace(ev.i, ev.f)

TraceNext == TReset \/ TNew \/ TCall \/ TStray \/ TFeed \/ TFlush \/ TServe \/ TTake \/ TMove \/ TReplace
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted ==
  \/ TLCGet("stats").diameter - 1 = Len(Trace)
  \/ PrintT(<<"REJECTED", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
