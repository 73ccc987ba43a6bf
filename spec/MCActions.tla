----------------------------- MODULE MCActions -----------------------------
(***************************************************************************)
(* Small exhaustive instance of UpdActions: who owns a functor, and what   *)
(* it remembers, whatever is done with the actions.                        *)
(***************************************************************************)
EXTENDS UpdActions

U(n) == [k |-> "u", n |-> n]
MCKeyrings ==
  <<[en |-> "BIG", mo |-> "TWOS_COMPLEMENT", fns |-> <<[a |-> <<U(1)>>, r |-> U(1)], [a |-> <<>>, r |-> [k |-> "v"]]>>]>>
K == KR[1]
CONSTANTS Functors, MaxRuns
Slots == {1, 2}
Disps == {1, 2}

VARIABLE runs   \* how often each callback was invoked since it was made, noted by the environment
vars == <<avars, runs>>

Note(inv) == [f \in DOMAIN runs |-> runs[f] + Len(SelectSeq(inv, LAMBDA c : c.cb = f))]
Keep == UNCHANGED runs
Unused(f) == f \notin DOMAIN cnt
Total == FoldSet(LAMBDA f, acc : acc + runs[f], 0, DOMAIN runs)

MCInit == AInit /\ runs = <<>>
MCNext ==
  \/ \E d \in Disps, p \in {"any", "weak"} : d \notin DOMAIN disp /\ New(d, 1, "plain", p) /\ UNCHANGED act /\ Keep
  \/ \E d \in Disps : d \in DOMAIN disp /\ Destroy(d) /\ UNCHANGED act /\ Keep
  \/ \E s \in Slots, f \in Functors, own \in BOOLEAN, j \in 1..K.n :
       Unused(f) /\ (own \/ f < FunctorBase) /\ Make(s, Lone(K, K.fn[j]), f, own) /\ runs' = Put1(runs, f, 0)
  \/ \E s \in Slots : Make(s, Lone(K, K.fn[1]), -1, TRUE) /\ Keep
  \/ \E d \in Disps, f \in Functors, i \in {0, 1} :
       Unused(f) /\ (f < FunctorBase \/ (d \in DOMAIN disp /\ disp[d].pol = "any")) /\ Replace(d, i, f) /\ runs' = Put1(runs, f, 0)
       /\ UNCHANGED act
  \/ \E s \in Slots, bs \in {<<>>, <<5>>}, x \in {0, 1} :
       Held(s) /\ Total < MaxRuns /\ Fire(s, bs, <<[x |-> x, r |-> [i \in 1..act[s].K.fn[1].rs |-> 7]]>>, 0) /\ runs' = Note(obs'.inv)
  \/ \E d \in Disps, i \in {0, 1} :
       d \in DOMAIN disp /\ Total < MaxRuns /\ RunAction(d, i, <<5>>, <<[x |-> 0, r |-> [k \in 1..K.fn[i + 1].rs |-> 7]]>>, 0)
       /\ runs' = Note(obs'.inv) /\ UNCHANGED act
  \/ \E s, t \in Slots : s # t /\ MoveAction(s, t) /\ Keep
  \/ \E s, t \in Slots : s # t /\ CopyAction(s, t) /\ Keep
  \/ \E d \in Disps, i \in {0, 1}, s \in Slots : (Exchange(d, i, s) \/ Install(d, i, s) \/ InstallCopy(d, i, s)) /\ Keep
  \/ \E s \in Slots : Release(s) /\ Keep
  \/ \E d, d2 \in Disps : d # d2 /\ Move(d, d2) /\ UNCHANGED act /\ Keep

MCSpec == MCInit /\ [][MCNext]_vars

(* The places which hold the callback f *)
Owners(f) == {<<"a", s>> : s \in {x \in DOMAIN act : act[x].cb = f}}
             \cup {<<"d", d, j>> : <<d, j>> \in {<<x, y>> \in Disps \X (1..K.n) : x \in DOMAIN disp /\ disp[x].cb[y] = f}}
(* A functor has one owner at most, which owns *)
OneOwner == \A f \in {g \in Functors : g >= FunctorBase} :
              /\ Cardinality(Owners(f)) <= 1
              /\ \A s \in DOMAIN act : act[s].cb = f => act[s].own
              /\ \A d \in DOMAIN disp : (\E j \in 1..K.n : disp[d].cb[j] = f) => disp[d].pol = "any"
Alive == Installed \cup HeldFunctors = {f \in Functors : f >= FunctorBase /\ Owners(f) # {}}
(* It remembers its own invocations and no others *)
Remembers == \A f \in DOMAIN cnt : cnt[f] = runs[f]
(* An invocation decodes what was given, an action made of nothing does nothing *)
Honest == obs.op = "fire" =>
            /\ Len(obs.inv) <= 1
            /\ obs.inv # <<>> => obs.inv[1].a = (IF obs.used = 0 THEN <<>> ELSE <<5>>)
            /\ obs.out # <<>> => obs.inv # <<>>
(* What is installed in a dispatcher has the format of its function: exchanges keep it *)
Formats == \A s \in DOMAIN act : act[s].cb \in {0, 1} => act[s].K = Lone(K, K.fn[act[s].cb + 1])
View == <<disp, cnt, act, runs, obs>>
=============================================================================
