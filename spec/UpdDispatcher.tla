--------------------------- MODULE UpdDispatcher ---------------------------
(***************************************************************************)
(* Dispatchers of Unpadded as state machines.                              *)
(*                                                                         *)
(* One action per public operation; the linearization point of an          *)
(* operation is its return (or the propagation of an exception).           *)
(*                                                                         *)
(*   disp[d]  the abstract state of dispatcher object d:                   *)
(*     kr    its keyring (index in Keyrings)                               *)
(*     kind  "plain", "single", "double" (buffering)                       *)
(*     pol   "any", "weak" (which callbacks it accepts)                    *)
(*     in    bytes of the request being received                           *)
(*     out   bytes of the response not retrieved yet                       *)
(*     tk    some of the last response has been retrieved                  *)
(*     cb    callback installed at each index (callback identifiers)       *)
(*   cnt[f]  number of invocations of the stateful functor f               *)
(*   obs     what the environment observed of the last operation           *)
(*                                                                         *)
(* Callbacks belong to the environment: what the k-th one invoked by an    *)
(* operation does is given by env[k] = [x |-> 0 or 1, r |-> result]:       *)
(* return r (canonical bytes) or throw.                                    *)
(***************************************************************************)
EXTENDS UpdCodec, FiniteSets

CONSTANT Keyrings   \* <<[en, mo, fns |-> <<[a |-> <<types>>, r |-> type]>>]>>

VARIABLES disp, cnt, obs
dvars == <<disp, cnt, obs>>

FunctorBase == 10000  \* callback identifiers from here on are stateful functors

Compiled(K) ==
  [n |-> Len(K.fns), iw |-> IndexWidth(Len(K.fns)), en |-> K.en, mo |-> K.mo,
   fn |-> TLCEval([j \in 1..Len(K.fns) |->
             LET ar == RunsOfSeq(K.fns[j].a)  rr == RunsOf(K.fns[j].r) IN
               [ar |-> ar, as |-> SizeOfRuns(ar), rr |-> rr, rs |-> SizeOfRuns(rr)]])]
KR == TLCEval([i \in DOMAIN Keyrings |-> TLCEval(Compiled(Keyrings[i]))])

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Min2(a, b) == IF a < b THEN a ELSE b
MaxArgs(K) == MaxOf({K.fn[j].as : j \in 1..K.n})
MaxRet(K) == MaxOf({K.fn[j].rs : j \in 1..K.n})

(* Advertised sizes *)
InputBufferSize(K) == K.iw + MaxArgs(K)
OutputBufferSize(K) == MaxRet(K)
SingleBufferSize(K) == MaxOf({InputBufferSize(K), OutputBufferSize(K)})

NewDisp(kr, kind, pol) ==
  [kr |-> kr, kind |-> kind, pol |-> pol, in |-> <<>>, out |-> <<>>, tk |-> FALSE,
   cb |-> [j \in 1..KR[kr].n |-> j - 1]]

----------------------------------------------------------------------------
(* Requests *)

EncRequest(K, j, args) == EncIndex(j - 1, K.iw, K.en) \o Enc(K.fn[j].ar, K.en, K.mo, args)
DecArgs(K, j, bytes) == Dec(K.fn[j].ar, K.en, K.mo, bytes)
EncResult(K, j, r) == IF Len(r) = K.fn[j].rs THEN Enc(K.fn[j].rr, K.en, K.mo, r) ELSE <<>>
DecResult(K, j, bytes) == Dec(K.fn[j].rr, K.en, K.mo, bytes)

(* 1-based function designated by index bytes, 0 if none *)
FunctionOf(K, w) == LET x == DecIndex(w, K.en) IN IF x < K.n THEN x + 1 ELSE 0

EnvAt(env, k) == IF k <= Len(env) THEN env[k] ELSE [x |-> 0, r |-> <<>>]

(* Run-length encoded sequence of <<status, is_loaded>> *)
AddRle(rle, st, ld, c) ==
  IF c = 0 THEN rle
  ELSE IF rle # <<>> /\ rle[Len(rle)][1] = st /\ rle[Len(rle)][2] = ld
       THEN [rle EXCEPT ![Len(rle)][3] = @ + c]
       ELSE Append(rle, <<st, ld, c>>)

Loaded(s) == IF s.out # <<>> THEN 1 ELSE 0

(* The request held in s.in is complete: invoke its callback *)
Resolve(K, s, j, e) ==
  [s EXCEPT !.in = <<>>, !.tk = FALSE, !.out = IF e.x = 1 THEN <<>> ELSE EncResult(K, j, e.r)]

(***************************************************************************)
(* Reception of the bytes bs.  acc collects what is observed:              *)
(*   s the dispatcher, st the statuses, inv the invocations, used the      *)
(*   number of bytes taken.  Reception stops early when a callback throws  *)
(*   and, if one is TRUE, at the end of the first packet.                  *)
(***************************************************************************)
RECURSIVE Feed(_, _, _, _, _)
Feed(K, acc, bs, env, one) ==
  IF bs = <<>> THEN acc
  ELSE
    LET s == acc.s
        have == Len(s.in)
        j0 == IF have >= K.iw THEN FunctionOf(K, SubSeq(s.in, 1, K.iw)) ELSE 0
        need == IF have < K.iw THEN K.iw - have ELSE K.iw + K.fn[j0].as - have
        take == Min2(need, Len(bs))
        in2 == s.in \o SubSeq(bs, 1, take)
        rest == SubSeq(bs, take + 1, Len(bs))
        j == IF Len(in2) >= K.iw THEN FunctionOf(K, SubSeq(in2, 1, K.iw)) ELSE 0
        acc1 == [acc EXCEPT !.used = @ + take]
    IN
    IF take < need \/ (j # 0 /\ Len(in2) < K.iw + K.fn[j].as)
      THEN \* still loading
        Feed(K, [acc1 EXCEPT !.s.in = in2, !.st = AddRle(@, "L", Loaded(s), take)], rest, env, one)
    ELSE IF j = 0
      THEN \* invalid index: the bytes of the index are dropped
        LET a2 == [acc1 EXCEPT !.s.in = <<>>, !.st = AddRle(AddRle(@, "L", Loaded(s), take - 1), "D", Loaded(s), 1)] IN
          IF one THEN a2 ELSE Feed(K, a2, rest, env, one)
    ELSE \* complete request
        LET e == EnvAt(env, Len(acc.inv) + 1)
            s2 == Resolve(K, s, j, e)
            call == [cb |-> s.cb[j], a |-> DecArgs(K, j, SubSeq(in2, K.iw + 1, Len(in2)))]
            a2 == [acc1 EXCEPT !.s = s2, !.inv = Append(@, call),
                               !.st = AddRle(AddRle(@, "L", Loaded(s), take - 1),
                                             IF e.x = 1 THEN "X" ELSE "R", Loaded(s2), 1)] IN
          IF one \/ e.x = 1 THEN a2 ELSE Feed(K, a2, rest, env, one)

Receive(s, bs, env, one) ==
  Feed(KR[s.kr], [s |-> s, st |-> <<>>, inv |-> <<>>, used |-> 0], bs, env, one)

RECURSIVE Bump(_, _)
(* Invocation counters of stateful functors *)
Bump(c, inv) ==
  IF inv = <<>> THEN c
  ELSE LET f == Head(inv).cb IN
         Bump(IF f \in DOMAIN c THEN [c EXCEPT ![f] = @ + 1] ELSE c, Tail(inv))

(* Stateful functors report their count: 0 for plain functions *)
RECURSIVE WithCounts(_, _)
WithCounts(c, inv) ==
  IF inv = <<>> THEN <<>>
  ELSE LET f == Head(inv).cb
           c2 == Bump(c, <<Head(inv)>>) IN
         <<[cb |-> f, a |-> Head(inv).a, n |-> IF f \in DOMAIN c2 THEN c2[f] ELSE 0]>> \o WithCounts(c2, Tail(inv))

Put1(f, d, x) == (d :> x) @@ f
Drop(f, d) == [y \in DOMAIN f \ {d} |-> f[y]]

----------------------------------------------------------------------------
(* Operations *)

DInit == disp = <<>> /\ cnt = <<>> /\ obs = [op |-> "init"]

New(d, kr, kind, pol) ==
  /\ disp' = Put1(disp, d, NewDisp(kr, kind, pol))
  /\ obs' = [op |-> "new"]
  /\ UNCHANGED cnt

Destroy(d) ==
  /\ disp' = Drop(disp, d)
  /\ obs' = [op |-> "del"]
  /\ UNCHANGED cnt

(* A response pending in a single buffer must be retrieved before receiving *)
CanReceive(s) == s.kind = "double" \/ (s.kind = "single" /\ s.out = <<>>)

(* put() called on each byte of bs, stopping at the first exception *)
Put(d, bs, env) ==
  /\ d \in DOMAIN disp /\ CanReceive(disp[d])
  /\ LET a == Receive(disp[d], bs, env, FALSE) IN
       /\ disp' = [disp EXCEPT ![d] = a.s]
       /\ obs' = [op |-> "put", st |-> a.st, inv |-> WithCounts(cnt, a.inv), used |-> a.used, ld |-> Loaded(a.s)]
       /\ cnt' = Bump(cnt, a.inv)

(* read_from() on a source providing bs then (if it is asked for more) failing *)
ReadFrom(d, bs, env) ==
  /\ d \in DOMAIN disp /\ CanReceive(disp[d])
  /\ LET a == Receive(disp[d], bs, env, TRUE)
         last == IF a.st = <<>> THEN "L" ELSE a.st[Len(a.st)][1] IN
       /\ disp' = [disp EXCEPT ![d] = a.s]
       /\ obs' = [op |-> "rd", st |-> IF last = "L" THEN "S" ELSE last,
                  inv |-> WithCounts(cnt, a.inv), used |-> a.used, ld |-> Loaded(a.s)]
       /\ cnt' = Bump(cnt, a.inv)

Taken(s, c) == [s EXCEPT !.out = SubSeq(@, c + 1, Len(@)), !.tk = @ \/ c > 0]

(* n calls of get(), each preceded by is_loaded(); get() returns an arbitrary value when nothing is loaded *)
Get(d, n) ==
  /\ d \in DOMAIN disp
  /\ LET s == disp[d]  c == Min2(n, Len(s.out)) IN
       /\ disp' = [disp EXCEPT ![d] = Taken(s, c)]
       /\ obs' = [op |-> "get", out |-> SubSeq(s.out, 1, c), ld |-> Loaded(Taken(s, c))]
  /\ UNCHANGED cnt

(* Bytes handed to a sink which fails while it is given its lim-th byte (0: it never fails) *)
SinkFails(bs, lim) == lim # 0 /\ lim <= Len(bs)
Handed(bs, lim) == IF SinkFails(bs, lim) THEN SubSeq(bs, 1, lim) ELSE bs

(* write_to() *)
WriteTo(d, lim) ==
  /\ d \in DOMAIN disp
  /\ LET s == disp[d]  h == Handed(s.out, lim)  s2 == Taken(s, Len(h)) IN
       /\ disp' = [disp EXCEPT ![d] = s2]
       /\ obs' = [op |-> "wr", out |-> h, st |-> IF SinkFails(s.out, lim) THEN "O" ELSE "R", ld |-> Loaded(s2)]
  /\ UNCHANGED cnt

(* operator()(src, dest): read_from() then, if a request was resolved, write_to() *)
Process(d, bs, env, lim) ==
  /\ d \in DOMAIN disp /\ CanReceive(disp[d])
  /\ LET a == Receive(disp[d], bs, env, TRUE)
         last == IF a.st = <<>> THEN "L" ELSE a.st[Len(a.st)][1]
         h == IF last = "R" THEN Handed(a.s.out, lim) ELSE <<>>
         s2 == Taken(a.s, Len(h)) IN
       /\ disp' = [disp EXCEPT ![d] = s2]
       /\ obs' = [op |-> "call",
                  st |-> CASE last = "L" -> "S"
                           [] last = "R" /\ SinkFails(a.s.out, lim) -> "O"
                           [] OTHER -> last,
                  out |-> h, inv |-> WithCounts(cnt, a.inv), used |-> a.used, ld |-> Loaded(s2)]
       /\ cnt' = Bump(cnt, a.inv)

(* A callback directly run on a stream of bytes: what operator[](i) or a plain dispatcher does *)
RunCallback(K, j, f, bs, env, lim) ==
  LET sz == K.fn[j].as  e == EnvAt(env, 1) IN
  IF Len(bs) < sz THEN [st |-> "S", used |-> Len(bs), inv |-> <<>>, out |-> <<>>]
  ELSE LET call == [cb |-> f, a |-> DecArgs(K, j, SubSeq(bs, 1, sz))]
           res == IF e.x = 1 THEN <<>> ELSE EncResult(K, j, e.r)
           fails == SinkFails(res, lim) IN
         [st |-> IF e.x = 1 THEN "X" ELSE IF fails THEN "O" ELSE "R", used |-> sz, inv |-> <<call>>,
          out |-> Handed(res, lim)]

(* operator[](i)(src, dest) *)
RunAction(d, i, bs, env, lim) ==
  /\ d \in DOMAIN disp
  /\ LET s == disp[d]  a == RunCallback(KR[s.kr], i + 1, s.cb[i + 1], bs, env, lim) IN
       /\ obs' = [op |-> "act", st |-> a.st, used |-> a.used, out |-> a.out, inv |-> WithCounts(cnt, a.inv)]
       /\ cnt' = Bump(cnt, a.inv)
  /\ UNCHANGED disp

(* Plain dispatcher: operator()(src, dest); idx is the returned index *)
Dispatch(d, bs, env, lim) ==
  /\ d \in DOMAIN disp /\ disp[d].kind = "plain"
  /\ LET s == disp[d]  K == KR[s.kr] IN
     IF Len(bs) < K.iw
     THEN obs' = [op |-> "disp", st |-> "S", used |-> Len(bs), idx |-> <<>>, out |-> <<>>, inv |-> <<>>] /\ UNCHANGED cnt
     ELSE LET w == SubSeq(bs, 1, K.iw)
              idx == Order(K.en, w)
              j == FunctionOf(K, w) IN
          IF j = 0
          THEN obs' = [op |-> "disp", st |-> "R", used |-> K.iw, idx |-> idx, out |-> <<>>, inv |-> <<>>] /\ UNCHANGED cnt
          ELSE LET a == RunCallback(K, j, s.cb[j], SubSeq(bs, K.iw + 1, Len(bs)), env, lim) IN
                 /\ obs' = [op |-> "disp", st |-> a.st, used |-> K.iw + a.used, idx |-> IF a.st = "R" THEN idx ELSE <<>>,
                            out |-> a.out, inv |-> WithCounts(cnt, a.inv)]
                 /\ cnt' = Bump(cnt, a.inv)
  /\ UNCHANGED disp

(* get_index(), get_action(): at is the position of the action, -1 if there is none *)
Lookup(d, bs) ==
  /\ d \in DOMAIN disp
  /\ LET K == KR[disp[d].kr]  w == SubSeq(bs, 1, K.iw) IN
       obs' = [op |-> "idx", idx |-> Order(K.en, w), at |-> FunctionOf(K, w) - 1, used |-> K.iw]
  /\ UNCHANGED <<disp, cnt>>

(* replace<I>(...) or assignment through operator[]: f becomes the callback of index i *)
Replace(d, i, f) ==
  /\ d \in DOMAIN disp
  /\ disp' = [disp EXCEPT ![d].cb[i + 1] = f]
  /\ cnt' = IF f >= FunctorBase THEN Put1(cnt, f, 0) ELSE cnt
  /\ obs' = [op |-> "rep"]

(* Relocation: the object moved from is destroyed at once by the environment *)
Move(d, d2) ==
  /\ d \in DOMAIN disp
  /\ disp' = Put1(Drop(disp, d), d2, disp[d])
  /\ obs' = [op |-> "mv", ld |-> Loaded(disp[d])]
  /\ UNCHANGED cnt

Copy(d, d2) ==
  /\ d \in DOMAIN disp /\ disp[d].pol = "weak"
  /\ disp' = Put1(disp, d2, disp[d])
  /\ obs' = [op |-> "cp", ld |-> Loaded(disp[d])]
  /\ UNCHANGED cnt

(***************************************************************************)
(* reply(output, key): key is function j2 of keyring kr2, whose sole       *)
(* parameter is a buffer of bytes.  bytes is what was written, accepted    *)
(* the returned value; lim as for write_to(): an output which fails is     *)
(* given the beginning of the request and the response remains to be sent, *)
(* whole.  The content of the buffer beyond the response is                *)
(* unspecified; an empty response (void, nothing executed yet) is a        *)
(* response like the others.                                               *)
(***************************************************************************)
ReplyFits(s, K2, j2) == ~s.tk /\ Len(s.out) <= K2.fn[j2].as
RequestPrefix(s, K2, j2, bytes) ==
  LET w == EncIndex(j2 - 1, K2.iw, K2.en) \o s.out  n == Min2(Len(w), Len(bytes)) IN
    SubSeq(bytes, 1, n) = SubSeq(w, 1, n)
ReplyRequest(s, K2, j2, bytes) ==
  /\ Len(bytes) = K2.iw + K2.fn[j2].as
  /\ RequestPrefix(s, K2, j2, bytes)
ReplyFails(s, K2, j2, lim) == ReplyFits(s, K2, j2) /\ lim # 0 /\ lim <= K2.iw + K2.fn[j2].as
Reply(d, kr2, j2, bytes, accepted, lim) ==
  /\ d \in DOMAIN disp
  /\ LET s == disp[d]  K2 == KR[kr2] IN
     IF accepted
     THEN /\ disp' = [disp EXCEPT ![d] = Taken(s, Len(s.out))]
          /\ obs' = [op |-> "reply", st |-> "R", ld |-> 0,
                     ok |-> ReplyFits(s, K2, j2) /\ ~ReplyFails(s, K2, j2, lim) /\ ReplyRequest(s, K2, j2, bytes)]
     ELSE /\ disp' = disp
          /\ obs' = [op |-> "reply", st |-> IF ReplyFails(s, K2, j2, lim) THEN "O" ELSE "R", ld |-> Loaded(s),
                     ok |-> IF ReplyFails(s, K2, j2, lim) THEN Len(bytes) = lim /\ RequestPrefix(s, K2, j2, bytes)
                            ELSE ~ReplyFits(s, K2, j2) /\ bytes = <<>>]
  /\ UNCHANGED cnt

----------------------------------------------------------------------------
(* Stateful functors which must be alive: those which are installed *)
Installed == {f \in UNION {{disp[d].cb[j] : j \in DOMAIN disp[d].cb} : d \in DOMAIN disp} : f >= FunctorBase}
=============================================================================
