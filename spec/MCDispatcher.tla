---------------------------- MODULE MCDispatcher ----------------------------
(***************************************************************************)
(* Small exhaustive instances of UpdDispatcher, against requirements which *)
(* are stated independently of how it is written: a declarative parse of   *)
(* everything which was received, and a ledger of everything which was     *)
(* produced and retrieved.                                                 *)
(***************************************************************************)
EXTENDS UpdDispatcher

CONSTANTS Kind,       \* kind of the dispatchers
          MaxRx,      \* number of bytes each dispatcher receives at most
          Bytes,      \* the bytes which are received
          Ops         \* which operations are explored

U(n) == [k |-> "u", n |-> n]
S(n) == [k |-> "s", n |-> n]
Void == [k |-> "v"]
MCKeyrings ==
  <<[en |-> "LITTLE", mo |-> "TWOS_COMPLEMENT",
     fns |-> <<[a |-> <<>>, r |-> Void], [a |-> <<U(1)>>, r |-> U(2)], [a |-> <<S(2)>>, r |-> U(1)]>>],
    [en |-> "BIG", mo |-> "TWOS_COMPLEMENT",
     fns |-> <<[a |-> <<[k |-> "a", c |-> 1, e |-> U(1)]>>, r |-> Void],
               [a |-> <<[k |-> "a", c |-> 3, e |-> U(1)]>>, r |-> Void]>>]>>
K == KR[1]

(* Ghost history of each dispatcher                                        *)
(*   rx bytes received, st status of each of them, calls invocations,      *)
(*   resp the last response, ret what was retrieved of it, lost whether    *)
(*   the request ended by an exception, rep replacements (number of        *)
(*   invocations before it, index, callback)                               *)
VARIABLE h
vars == <<dvars, h>>

NoHist == [rx |-> <<>>, st |-> <<>>, calls |-> <<>>, resp |-> <<>>, ret |-> <<>>, rep |-> <<>>]

MCInit == DInit /\ h = <<>>
Create == disp = <<>> /\ New(1, 1, Kind, "weak") /\ h' = (1 :> NoHist)

RECURSIVE Expand(_)
Expand(rle) == IF rle = <<>> THEN <<>> ELSE [i \in 1..Head(rle)[3] |-> Head(rle)[1]] \o Expand(Tail(rle))

(* What a reception adds to the history *)
Received(g, s1, a, env, taken) ==
  LET n == Len(a.inv)
      g1 == [g EXCEPT !.rx = @ \o taken, !.st = @ \o Expand(a.st), !.calls = @ \o a.inv] IN
  IF n = 0 THEN g1
  ELSE LET e == EnvAt(env, n) IN [g1 EXCEPT !.resp = a.s.out, !.ret = <<>>]

Fits(s, bs, env) == \* results have the right size
  LET a == Receive(s, bs, env, FALSE) IN
    \A i \in DOMAIN a.inv : env[i].x = 1 \/ LET j == a.inv[i].cb % 100 IN Len(env[i].r) = K.fn[j + 1].rs

Callback == [x : {0}, r : {<<>>, <<7>>, <<7, 9>>}] \cup (IF "throw" \in Ops THEN {[x |-> 1, r |-> <<>>]} ELSE {})

Room(d, n) == Len(h[d].rx) + n <= MaxRx

DoPut == \E d \in DOMAIN disp, b \in Bytes, e \in Callback :
  /\ Room(d, 1) /\ CanReceive(disp[d]) /\ Fits(disp[d], <<b>>, <<e>>)
  /\ (Receive(disp[d], <<b>>, <<e>>, FALSE).inv = <<>> => e = [x |-> 0, r |-> <<>>])
  /\ Put(d, <<b>>, <<e>>)
  /\ h' = [h EXCEPT ![d] = Received(@, disp[d], Receive(disp[d], <<b>>, <<e>>, FALSE), <<e>>, <<b>>)]

DoRead == "read" \in Ops /\ \E d \in DOMAIN disp, b1, b2, b3 \in Bytes, e \in Callback :
  LET bs == <<b1, b2, b3>>  a == Receive(disp[d], bs, <<e>>, TRUE) IN
  /\ Room(d, 3) /\ CanReceive(disp[d])
  /\ \A i \in DOMAIN a.inv : e.x = 1 \/ Len(e.r) = K.fn[(a.inv[i].cb % 100) + 1].rs
  /\ (a.inv = <<>> => e = [x |-> 0, r |-> <<>>])
  /\ ReadFrom(d, bs, <<e>>)
  /\ h' = [h EXCEPT ![d] = Received(@, disp[d], a, <<e>>, SubSeq(bs, 1, a.used))]

DoGet == "get" \in Ops /\ \E d \in DOMAIN disp :
  /\ Get(d, 1)
  /\ h' = [h EXCEPT ![d].ret = @ \o obs'.out]
DoWrite == "write" \in Ops /\ \E d \in DOMAIN disp, lim \in {0, 1} :
  /\ WriteTo(d, lim)
  /\ h' = [h EXCEPT ![d].ret = @ \o obs'.out]
DoReplace == "replace" \in Ops /\ \E d \in DOMAIN disp, i \in 0..(K.n - 1) :
  /\ Replace(d, i, 100 + i)
  /\ h' = [h EXCEPT ![d].rep = Append(@, <<Len(h[d].calls), i, 100 + i>>)]
  /\ Len(h[d].rep) < 2
DoMove == "move" \in Ops /\ \E d \in DOMAIN disp, d2 \in {1, 2} :
  /\ d # d2 /\ d2 \notin DOMAIN disp
  /\ Move(d, d2)
  /\ h' = Put1(Drop(h, d), d2, h[d])
DoCopy == "copy" \in Ops /\ \E d \in DOMAIN disp, d2 \in {1, 2} :
  /\ d # d2 /\ d2 \notin DOMAIN disp
  /\ Copy(d, d2)
  /\ h' = Put1(h, d2, h[d])
DoReply == "reply" \in Ops /\ \E d \in DOMAIN disp, j \in {1, 2}, lim \in 0..2 :
  LET s == disp[d]  K2 == KR[2]
      fits == ReplyFits(s, K2, j)
      bytes == EncIndex(j - 1, 1, "BIG") \o s.out \o [i \in 1..(K2.fn[j].as - Len(s.out)) |-> 0]
      done == fits /\ ~ReplyFails(s, K2, j, lim) IN
  /\ Reply(d, 2, j, IF fits THEN Handed(bytes, lim) ELSE <<>>, done, lim)
  /\ obs'.ok
  /\ h' = IF done THEN [h EXCEPT ![d].ret = @ \o s.out] ELSE h

MCNext == Create \/ DoPut \/ DoRead \/ DoGet \/ DoWrite \/ DoReplace \/ DoMove \/ DoCopy \/ DoReply
MCSpec == MCInit /\ [][MCNext]_vars

MCView == <<disp, h>>

----------------------------------------------------------------------------
(* Requirements *)

(* What a stream of bytes means: packets [j, a, end], j = 0 for an index   *)
(* designating nothing, and the bytes of an unfinished packet              *)
RECURSIVE Parse(_, _)
Parse(rx, at) ==
  IF Len(rx) < 1 THEN [pk |-> <<>>, rest |-> <<>>]
  ELSE LET j == IF rx[1] < 3 THEN rx[1] + 1 ELSE 0
           n == 1 + (CASE j = 2 -> 1 [] j = 3 -> 2 [] OTHER -> 0) IN
       IF Len(rx) < n THEN [pk |-> <<>>, rest |-> rx]
       ELSE LET p == Parse(SubSeq(rx, n + 1, Len(rx)), at + n) IN
              [pk |-> <<[j |-> j, a |-> SubSeq(rx, 2, n), end |-> at + n]>> \o p.pk, rest |-> p.rest]
Parsed(d) == Parse(h[d].rx, 0)
Requests(p) == SelectSeq(p.pk, LAMBDA x : x.j # 0)

Alive == DOMAIN disp

(* C07: framing *)
Framing == \A d \in Alive :
  LET p == Parsed(d) IN
    /\ disp[d].in = p.rest
    /\ Len(h[d].st) = Len(h[d].rx)
    /\ \A i \in 1..Len(h[d].rx) :
         LET k == {x \in DOMAIN p.pk : p.pk[x].end = i} IN
           IF k = {} THEN h[d].st[i] = "L"
           ELSE LET x == p.pk[CHOOSE y \in k : TRUE] IN
                  IF x.j = 0 THEN h[d].st[i] = "D" ELSE h[d].st[i] \in {"R", "X"}
(* C08, C12: exactly the complete requests are executed, once, in order, by the callback of the time *)
CallbackAt(d, k, i) ==
  LET r == SelectSeq(h[d].rep, LAMBDA x : x[1] < k /\ x[2] = i) IN IF r = <<>> THEN i ELSE r[Len(r)][3]
Execution == \A d \in Alive :
  LET q == Requests(Parsed(d)) IN
    /\ Len(h[d].calls) = Len(q)
    /\ \A k \in DOMAIN q : h[d].calls[k] = [cb |-> CallbackAt(d, k, q[k].j - 1), a |-> q[k].a]
(* C09: what is to be sent is what has not been retrieved of the last response *)
Output == \A d \in Alive : h[d].ret \o disp[d].out = h[d].resp
(* C11: nothing is stored beyond the advertised sizes *)
Bounded == \A d \in Alive :
  /\ Len(disp[d].in) < InputBufferSize(K)
  /\ Len(disp[d].out) <= OutputBufferSize(K)
  /\ disp[d].kind = "single" => Len(disp[d].in) = 0 \/ Len(disp[d].out) = 0
(* C10: until a request completes, receiving leaves the response alone; retrieving leaves the request alone *)
Independence == [][\A d \in DOMAIN disp \cap DOMAIN disp' :
  /\ (Len(h'[d].calls) = Len(h[d].calls) /\ Len(h'[d].rx) > Len(h[d].rx)) => disp'[d].out = disp[d].out
  /\ Len(h'[d].ret) > Len(h[d].ret) => disp'[d].in = disp[d].in]_vars
(* C18: a request whose callback threw has no response *)
NoResponseAfterThrow == \A d \in Alive :
  (h[d].st # <<>> /\ h[d].st[Len(h[d].st)] = "X") => disp[d].out = <<>>

(* Chunking: receiving bytes one by one or together is the same (C07) *)
Strings == UNION {[1..n -> Bytes] : n \in 0..3}
ChunkLaw == \A d \in Alive : CanReceive(disp[d]) /\ disp[d].kind = "double" =>
  \A x \in [1..2 -> Bytes] :
    LET e == <<>>
        whole == Receive(disp[d], x, e, FALSE)
        first == Receive(disp[d], SubSeq(x, 1, 1), e, FALSE)
        second == Receive(first.s, SubSeq(x, 2, 2), e, FALSE) IN
      /\ whole.s = second.s
      /\ whole.inv = first.inv \o second.inv
      /\ Expand(whole.st) = Expand(first.st) \o Expand(second.st)

=============================================================================
