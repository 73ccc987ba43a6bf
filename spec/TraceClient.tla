---------------------------- MODULE TraceClient ----------------------------
(***************************************************************************)
(* Is a recorded use of unpadded.Client a behaviour of UpdClient?          *)
(***************************************************************************)
EXTENDS UpdClient, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Config == JsonDeserialize(IOEnv.KEYRINGS)
TraceKeyrings == Config.keyrings

VARIABLE l
vars == <<dvars, cvars, l>>

ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ ev.e = e /\ l' = l + 1 /\ UNCHANGED dvars
Same(f, expected, actual) ==
  expected = actual \/ (PrintT(<<"MISMATCH", l, ev.e, f, "EXPECTED", expected, "ACTUAL", actual>>) /\ FALSE)

(* Recorded values are Python objects: those which stand for what is expected are as good as it *)
Recorded(expected, d) ==
  LET r == d.r
      m == {x \in expected : x.c = d.c} IN
  IF r.k = "value" /\ \E x \in m : x.r.k = "value" /\ StandsFor(ClientFn(x.r.j).r, r.v, x.r.v)
  THEN [c |-> d.c, r |-> (CHOOSE x \in m : TRUE).r]
  ELSE [c |-> d.c, r |-> r]

TraceInit == DInit /\ CInit /\ l = 1
TReset == IsEvent("reset") /\ calls' = <<>> /\ out' = Quiet
TCall == IsEvent("acall") /\ Call(ev.c, ev.cl, ev.j + 1, ev.a, ev.how)
TAnswer == IsEvent("answer") /\ Answer(ev.c, ev.r)
TCancel == IsEvent("cancel") /\ Cancel(ev.c)
TElapse == IsEvent("elapse") /\ Elapse
        /\ Same("sent", 0, Len(ev.sent)) /\ Same("done", 0, Len(ev.done))
(* Each request and each outcome is seen once *)
TRun == IsEvent("run") /\ Run
        /\ Same("requests", out'.sent, Range(ev.sent)) /\ Same("number of requests", Cardinality(out'.sent), Len(ev.sent))
        /\ LET rec == {Recorded(out'.done, d) : d \in Range(ev.done)} IN Same("outcomes", out'.done, rec)
        /\ Same("number of outcomes", Cardinality(out'.done), Len(ev.done))
TFail == IsEvent("pfail") /\ UNCHANGED cvars /\ Same("status", "R", ev.what)

TraceNext == TReset \/ TCall \/ TAnswer \/ TCancel \/ TRun \/ TElapse \/ TFail
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted ==
  \/ TLCGet("stats").diameter - 1 = Len(Trace)
  \/ PrintT(<<"REJECTED", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
