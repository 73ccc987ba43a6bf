------------------------------- MODULE UpdRpc -------------------------------
(***************************************************************************)
(* A caller and a callee made from the same keyring, connected by two      *)
(* reliable, ordered byte channels which cut their content anywhere.       *)
(*                                                                         *)
(*   up      bytes sent by the caller and not received by the callee       *)
(*   down    bytes sent by the callee and not consumed by the caller       *)
(*   sent    calls made: <<[j |-> function, a |-> canonical arguments]>>   *)
(*   done    executions at the callee: <<[j, a, r |-> canonical result]>>  *)
(*   taken   number of calls the caller is done with                       *)
(*   got     results the caller obtained, for the calls which have one     *)
(*                                                                         *)
(* The callee is a dispatcher of UpdDispatcher.  Its application sends a   *)
(* response before the request after it completes (a dispatcher holds one  *)
(* response).                                                              *)
(***************************************************************************)
EXTENDS UpdDispatcher

VARIABLES up, down, sent, done, taken, got
rvars == <<dvars, up, down, sent, done, taken, got>>
chan == <<up, down, sent, done, taken, got>>

K == KR[1]
Callee == 1
Skip(s, n) == SubSeq(s, n + 1, Len(s))

(* Functions executed by the reception of bs when in is held *)
RECURSIVE Executed(_, _)
Executed(in, bs) ==
  LET all == in \o bs IN
  IF Len(all) < K.iw THEN <<>>
  ELSE LET j == FunctionOf(K, SubSeq(all, 1, K.iw)) IN
       IF j = 0 THEN Executed(<<>>, Skip(all, K.iw))
       ELSE IF Len(all) < K.iw + K.fn[j].as THEN <<>>
       ELSE <<j>> \o Executed(<<>>, Skip(all, K.iw + K.fn[j].as))
Executions(js, inv, env) == [k \in DOMAIN js |-> [j |-> js[k], a |-> inv[k].a, r |-> env[k].r]]

(* No request completes while a response is waiting; nothing is received while one waits in a single buffer *)
NoneLost(s, bs, env) ==
  LET js == Executed(s.in, bs) IN
  /\ js # <<>> => s.out = <<>>
  /\ \A k \in 1..(Len(js) - 1) : K.fn[js[k]].rs = 0
  /\ (s.kind = "single" /\ js # <<>>) =>
       \/ K.fn[js[Len(js)]].rs = 0
       \/ Len(Executed(s.in, SubSeq(bs, 1, Len(bs) - 1))) < Len(js)

RInit == DInit /\ up = <<>> /\ down = <<>> /\ sent = <<>> /\ done = <<>> /\ taken = 0 /\ got = <<>>

RNew(kind, pol) == New(Callee, 1, kind, pol) /\ UNCHANGED chan

(* The caller *)
RCall(j, a) ==
  /\ Len(a) = K.fn[j].as
  /\ up' = up \o EncRequest(K, j, a)
  /\ sent' = Append(sent, [j |-> j, a |-> a])
  /\ obs' = [op |-> "rcall"]
  /\ UNCHANGED <<disp, cnt, down, done, taken, got>>

RStray(w) ==
  /\ Len(w) = K.iw /\ FunctionOf(K, w) = 0
  /\ up' = up \o w
  /\ obs' = [op |-> "rstray"]
  /\ UNCHANGED <<disp, cnt, down, sent, done, taken, got>>

NextCall == sent[taken + 1]
Answered == taken < Len(sent) /\ Len(down) >= K.fn[NextCall.j].rs
RTake ==
  /\ Answered
  /\ LET j == NextCall.j  v == DecResult(K, j, SubSeq(down, 1, K.fn[j].rs)) IN
       /\ down' = Skip(down, K.fn[j].rs)
       /\ got' = IF K.fn[j].rs = 0 THEN got ELSE Append(got, v)
       /\ obs' = [op |-> "rtake", j |-> j, v |-> v]
  /\ taken' = taken + 1
  /\ UNCHANGED <<disp, cnt, up, sent, done>>

(* The callee: n bytes arrive; n bytes leave *)
RFeed(n, env) ==
  /\ n \in 1..Len(up)
  /\ LET bs == SubSeq(up, 1, n)  js == Executed(disp[Callee].in, bs) IN
       /\ NoneLost(disp[Callee], bs, env) /\ Len(env) = Len(js)
       /\ Put(Callee, bs, env)
       /\ done' = done \o Executions(js, obs'.inv, env)
  /\ up' = Skip(up, n)
  /\ UNCHANGED <<down, sent, taken, got>>

RFlush(n) ==
  /\ Get(Callee, n)
  /\ down' = down \o obs'.out
  /\ UNCHANGED <<up, sent, done, taken, got>>

(* One whole packet, request and response *)
RServe(env) ==
  /\ up # <<>>
  /\ IF disp[Callee].kind = "plain"
     THEN Dispatch(Callee, up, env, 0) /\ obs'.st = "R"
     ELSE /\ disp[Callee].out = <<>> /\ Process(Callee, up, env, 0) /\ obs'.st \in {"R", "D"}
  /\ up' = Skip(up, obs'.used)
  /\ down' = down \o obs'.out
  /\ LET js == IF disp[Callee].kind = "plain" THEN Executed(<<>>, SubSeq(up, 1, obs'.used))
               ELSE Executed(disp[Callee].in, SubSeq(up, 1, obs'.used)) IN
       done' = done \o Executions(js, obs'.inv, env)
  /\ UNCHANGED <<sent, taken, got>>

RMove == Move(Callee, Callee) /\ UNCHANGED chan
RReplace(i, f) == Replace(Callee, i, f) /\ UNCHANGED chan

----------------------------------------------------------------------------
HasResultOf(c) == K.fn[c.j].rs # 0
Calls == sent
Ran == [k \in DOMAIN done |-> [c |-> [j |-> done[k].j, a |-> done[k].a], r |-> done[k].r]]
Abstract == INSTANCE RpcAbstract WITH HasResult <- HasResultOf, calls <- Calls, ran <- Ran, answers <- got

(* C17 *)
ExecutedInOrder ==
  /\ Len(done) <= Len(sent)
  /\ \A k \in DOMAIN done : [j |-> done[k].j, a |-> done[k].a] = sent[k]
(* Every byte in flight belongs to a response which was not taken yet *)
RECURSIVE Responses(_)
Responses(xs) == IF xs = <<>> THEN <<>> ELSE EncResult(K, Head(xs).j, Head(xs).r) \o Responses(Tail(xs))
InFlight ==
  LET waiting == SubSeq(done, taken + 1, Len(done))
      o == IF Callee \in DOMAIN disp THEN disp[Callee].out ELSE <<>> IN down \o o = Responses(waiting)
=============================================================================
