---------------------------- MODULE TraceImport ----------------------------
(***************************************************************************)
(* Are the recorded imports those of UpdImport?                            *)
(***************************************************************************)
EXTENDS UpdImport, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
vars == <<ivars, l>>
ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ ev.e = e /\ l' = l + 1
Same(f, expected, actual) ==
  expected = actual \/ (PrintT(<<"MISMATCH", l, ev.e, f, "EXPECTED", expected, "ACTUAL", actual>>) /\ FALSE)

TraceInit == IInit /\ l = 1
TReset == IsEvent("reset") /\ src' = <<>> /\ art' = <<>> /\ hdr' = 1 /\ extra' = 0 /\ loaded' = <<>> /\ opened' = {} /\ res' = Missing
TCpp == IsEvent("cpp") /\ SetCpp(ev.m, [v |-> ev.v, mark |-> ev.mark, how |-> ev.how, needs |-> ev.needs])
TPy == IsEvent("py") /\ SetPy(ev.m, [v |-> ev.v, how |-> ev.how, needs |-> ev.needs])
TDel == IsEvent("delart") /\ SetArt(ev.m, NoArt)
TCorrupt == IsEvent("corrupt") /\ SetArt(ev.m, [k |-> "corrupt"])
THdr == IsEvent("hdr") /\ SetHeader(ev.h)
TExtra == IsEvent("extra") /\ SetExtra(ev.h)
TProc == IsEvent("proc") /\ NewProcess
TImport == IsEvent("imp") /\ DoImport(ev.m) /\ Same("module", res', ev.r)
TFail == IsEvent("pfail") /\ UNCHANGED ivars /\ Same("status", "R", ev.what)
TraceNext == TReset \/ TCpp \/ TPy \/ TDel \/ TCorrupt \/ THdr \/ TExtra \/ TProc \/ TImport \/ TFail
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted ==
  \/ TLCGet("stats").diameter - 1 = Len(Trace)
  \/ PrintT(<<"REJECTED", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
