------------------------------- MODULE MCRpc -------------------------------
(***************************************************************************)
(* A small exhaustive instance of UpdRpc: every sequence of up to MaxCalls *)
(* calls and one stray packet, every way of cutting and interleaving the   *)
(* channels.  Checks C17, that it refines RpcAbstract, and that every call *)
(* is eventually answered.                                                 *)
(***************************************************************************)
EXTENDS UpdRpc

CONSTANTS MaxCalls, Kind, En, Mode
U(n) == [k |-> "u", n |-> n]
S(n) == [k |-> "s", n |-> n]
V == [k |-> "v"]
MCKeyrings == <<[en |-> En, mo |-> Mode,
                 fns |-> <<[a |-> <<>>, r |-> V], [a |-> <<S(1)>>, r |-> S(2)], [a |-> <<U(2)>>, r |-> U(1)]>>]>>

VARIABLES strays
vars == <<rvars, strays>>

Args(j) == CASE j = 1 -> {<<>>} [] j = 2 -> {<<0>>, <<129>>} [] OTHER -> {<<1, 2>>}
(* Results depend on the function, the arguments and the history *)
Result(j, k) == CASE j = 1 -> <<>> [] j = 2 -> <<k, 255>> [] OTHER -> <<k>>
Env(js) == [k \in DOMAIN js |-> [x |-> 0, r |-> Result(js[k], Len(done) + k)]]

MCInit == RInit /\ strays = 0
Make == disp = <<>> /\ RNew(Kind, "any") /\ UNCHANGED strays
Ready == disp # <<>>
CallAny == Ready /\ Len(sent) < MaxCalls /\ \E j \in 1..3 : \E a \in Args(j) : RCall(j, a) /\ UNCHANGED strays
Stray == Ready /\ strays < 1 /\ RStray(<<3>>) /\ strays' = strays + 1
Feed1 == Ready /\ Kind # "plain" /\ \E n \in 1..3 : n <= Len(up) /\ RFeed(n, Env(Executed(disp[1].in, SubSeq(up, 1, n)))) /\ UNCHANGED strays
Flush1 == Ready /\ Kind # "plain" /\ \E n \in 1..2 : n <= Len(disp[1].out) /\ RFlush(n) /\ UNCHANGED strays
Serve == Ready /\ up # <<>>
         /\ LET js == Executed(IF Kind = "plain" THEN <<>> ELSE disp[1].in, up) IN RServe(SubSeq(Env(js), 1, Min2(1, Len(js))))
         /\ UNCHANGED strays
Take == Ready /\ RTake /\ UNCHANGED strays
Move1 == Ready /\ disp[1].in # <<>> /\ RMove /\ UNCHANGED strays

MCNext == Make \/ CallAny \/ Stray \/ Feed1 \/ Flush1 \/ Serve \/ Take \/ Move1
MCSpec == MCInit /\ [][MCNext]_vars
          /\ WF_vars(Make) /\ WF_vars(Feed1) /\ WF_vars(Flush1) /\ WF_vars(Take)
          /\ (Kind = "plain" => WF_vars(Serve))

Refines == Abstract!ASpec
(* Every call made is eventually executed and answered *)
EventuallyAnswered == <>[](taken = Len(sent) /\ Len(done) = Len(sent) /\ up = <<>> /\ down = <<>>)
(* A result taken is the one which its own execution returned *)
TakesItsOwn == [][got' # got => got'[Len(got')] = done[taken'].r]_vars
MCView == <<disp, chan, strays>>
=============================================================================
