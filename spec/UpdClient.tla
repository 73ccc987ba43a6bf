----------------------------- MODULE UpdClient -----------------------------
(***************************************************************************)
(* Asynchronous clients: any number of calls run concurrently, the         *)
(* transport (the environment) answers their requests in any order, or     *)
(* fails.  A call is a coroutine scheduled by an event loop: Run stands    *)
(* for the loop running until nothing can progress any more.               *)
(*                                                                         *)
(*   calls[c]  [cl, j, args, ph, req, resp]                                *)
(*     cl    client the call is made through; 0: one without a transport   *)
(*     j     function (1-based), args  Python objects                      *)
(*     how   how the transport takes the request: "wait" (the answer comes *)
(*           later), or raises at once: "raise"                            *)
(*     ph    "new"      the loop has not run since the call was made       *)
(*           "sent"     its request was sent, no answer                    *)
(*           "answered" the loop has not run since the answer was given    *)
(*           "done"                                                        *)
(*     resp  the answer: [k |-> "bytes", b], [k |-> "obj", id] any other   *)
(*           object, [k |-> "err", id] failure, [k |-> "cancel"]           *)
(*   out     what the last Run made visible:                               *)
(*     sent  set of [c, w]: the request w was passed to the transport      *)
(*     done  set of [c, r]: the call ended with the outcome r              *)
(***************************************************************************)
EXTENDS UpdPython

VARIABLES calls, out
cvars == <<calls, out>>

Quiet == [sent |-> {}, done |-> {}]
CInit == calls = <<>> /\ out = Quiet

ClientFn(j) == Keyrings[1].fns[j]
ArgsOf(c) == DenotedAll(ClientFn(calls[c].j).a, calls[c].args)

Call(c, cl, j, args, how) ==
  /\ c \notin DOMAIN calls
  /\ calls' = (c :> [cl |-> cl, j |-> j, args |-> args, how |-> how, ph |-> "new", resp |-> <<>>]) @@ calls
  /\ out' = Quiet

(* The answer to the request of c; calls whose request is not known yet cannot be answered *)
Answer(c, resp) ==
  /\ c \in DOMAIN calls /\ calls[c].ph = "sent"
  /\ calls' = [calls EXCEPT ![c].ph = "answered", ![c].resp = resp]
  /\ out' = Quiet

(* The awaiting task is cancelled, before or after it has sent its request *)
Cancel(c) ==
  /\ c \in DOMAIN calls /\ calls[c].ph \in {"new", "sent"}
  /\ calls' = [calls EXCEPT ![c].ph = "answered", ![c].resp = [k |-> "cancel"]]
  /\ out' = Quiet

(* Outcomes: [k |-> "value", j, v] (v canonical bytes), [k |-> "obj", id], [k |-> "err", id], [k |-> "rejected"],   *)
(* [k |-> "unimplemented"], [k |-> "cancel"]                                                                       *)
First(c) ==
  IF ArgsOf(c) = Nothing THEN [k |-> "rejected"]
  ELSE IF calls[c].cl = 0 THEN [k |-> "unimplemented"]
  ELSE IF calls[c].how = "raise" THEN [k |-> "err", id |-> c]
  ELSE [k |-> "sent"]
Request(c) == EncRequest(KR[1], calls[c].j, ArgsOf(c))

Outcome(c) ==
  LET r == calls[c].resp  K == KR[1]  j == calls[c].j IN
  IF r.k # "bytes" THEN r
  ELSE IF Len(r.b) < K.fn[j].rs THEN [k |-> "rejected"]
  ELSE [k |-> "value", j |-> j, v |-> DecResult(K, j, SubSeq(r.b, 1, K.fn[j].rs))]

NewCalls == {c \in DOMAIN calls : calls[c].ph = "new"}
Answered == {c \in DOMAIN calls : calls[c].ph = "answered"}
Transported(c) == First(c).k \in {"sent", "err"}

Run ==
  LET starts == [c \in NewCalls |-> First(c)] IN
  /\ calls' = [c \in DOMAIN calls |->
                 IF c \in NewCalls THEN [calls[c] EXCEPT !.ph = IF starts[c].k = "sent" THEN "sent" ELSE "done"]
                 ELSE IF c \in Answered THEN [calls[c] EXCEPT !.ph = "done"]
                 ELSE calls[c]]
  /\ out' = [sent |-> {[c |-> c, w |-> Request(c)] : c \in {x \in NewCalls : Transported(x)}},
             done |-> {[c |-> c, r |-> starts[c]] : c \in {x \in NewCalls : starts[x].k # "sent"}}
                        \cup {[c |-> c, r |-> Outcome(c)] : c \in Answered}]

(* Time passes: nothing happens *)
Elapse == UNCHANGED calls /\ out' = Quiet
=============================================================================
