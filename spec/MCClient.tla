------------------------------ MODULE MCClient ------------------------------
(***************************************************************************)
(* Exhaustive exploration of UpdClient, and generation of schedules for    *)
(* the real clients.  hist records the operations, and is not part of the  *)
(* state (VIEW) when the state graph is explored.                          *)
(***************************************************************************)
EXTENDS UpdClient, Json, IOUtils

Config == JsonDeserialize(IOEnv.KEYRINGS)
MCKeyrings == Config.keyrings
Plan == JsonDeserialize(IOEnv.SCHEDULE)   \* [mode, depth, calls |-> <<[c, cl, j, a, how]>>, answers |-> <<responses>>]

VARIABLES hist, log   \* log: requests sent and outcomes of every call
vars == <<dvars, cvars, hist, log>>

MInit == DInit /\ CInit /\ hist = <<>> /\ log = [sent |-> {}, done |-> {}]

Track(op) ==
  /\ hist' = Append(hist, op)
  /\ log' = [sent |-> log.sent \cup out'.sent, done |-> log.done \cup out'.done]
  /\ UNCHANGED dvars
  /\ (Plan.mode = "edges" \/ Len(hist') = Plan.depth) => (Plan.mode = "check" \/ PrintT(<<"SCHEDULE", hist'>>))

Worth == NewCalls # {} \/ Answered # {}
MNext ==
  /\ Len(hist) < Plan.depth
  /\ \/ \E k \in DOMAIN Plan.calls : LET p == Plan.calls[k] IN
          (IF k = 1 THEN TRUE ELSE Plan.calls[k - 1].c \in DOMAIN calls) /\ Call(p.c, p.cl, p.j + 1, p.a, p.how) /\ Track(<<1, k, 0>>)
     \/ \E c \in DOMAIN calls, a \in DOMAIN Plan.answers : Answer(c, Plan.answers[a]) /\ Track(<<2, c, a>>)
     \/ \E c \in DOMAIN calls : Cancel(c) /\ Track(<<3, c, 0>>)
     \/ Worth /\ Run /\ Track(<<4, 0, 0>>)
MSpec == MInit /\ [][MNext]_vars
View == IF Plan.mode = "all" THEN <<calls, hist>> ELSE <<calls, log>>

(* Every call has at most one request, its own encoding, and one outcome *)
OneRequest == \A x \in log.sent, y \in log.sent : x.c = y.c => x = y
OneOutcome == \A x \in log.done, y \in log.done : x.c = y.c => x = y
OwnRequest == \A x \in log.sent : x.w = Request(x.c)
(* A call ends with a value only after its own request was answered by bytes which denote it *)
OwnResponse ==
  \A x \in log.done : x.r.k = "value" =>
     /\ calls[x.c].resp.k = "bytes"
     /\ x.r.v = DecResult(KR[1], calls[x.c].j, SubSeq(calls[x.c].resp.b, 1, KR[1].fn[calls[x.c].j].rs))
     /\ \E y \in log.sent : y.c = x.c
(* What is not bytes is given back untouched, failures reach the call which was concerned *)
Untouched == \A x \in log.done : x.r.k \in {"obj", "cancel"} => calls[x.c].resp = x.r
OwnFailure == \A x \in log.done : x.r.k = "err" =>
                 calls[x.c].how = "raise" \/ calls[x.c].resp = x.r
NoTransport == \A x \in log.done : calls[x.c].cl = 0 => x.r.k \in {"unimplemented", "rejected", "cancel"}
Rejected == \A c \in DOMAIN calls : ArgsOf(c) = Nothing => \A x \in log.sent : x.c # c
Settled == \A c \in DOMAIN calls : (calls[c].ph = "done") = (\E x \in log.done : x.c = c)
=============================================================================
