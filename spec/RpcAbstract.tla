---------------------------- MODULE RpcAbstract ----------------------------
(***************************************************************************)
(* What a caller may rely on, without any channel, byte or buffer: each    *)
(* call is executed once, in order, at some moment after it was made; a    *)
(* call which has a result is answered, after it was executed, with that   *)
(* result, in order.                                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANT HasResult(_)   \* whether the function of a call returns something
VARIABLES calls,    \* calls made
          ran,      \* executions: <<[c |-> call, r |-> result]>>
          answers   \* answers the caller got: results, in the order of the calls which have one

AInit == calls = <<>> /\ ran = <<>> /\ answers = <<>>
WithResult == SelectSeq(ran, LAMBDA x : HasResult(x.c))

ACall == (\E c \in {calls'[Len(calls')]} : calls' = Append(calls, c)) /\ UNCHANGED <<ran, answers>>
(* Several calls may run during one step of the callee *)
ARun == /\ Len(ran) < Len(ran') /\ Len(ran') <= Len(calls)
        /\ SubSeq(ran', 1, Len(ran)) = ran
        /\ \A k \in DOMAIN ran' : ran'[k].c = calls[k]
        /\ UNCHANGED <<calls, answers>>
AAnswer == /\ Len(answers) < Len(WithResult)
           /\ answers' = Append(answers, WithResult[Len(answers) + 1].r)
           /\ UNCHANGED <<calls, ran>>

ANext == (calls' # calls /\ ACall) \/ (ran' # ran /\ ARun) \/ (answers' # answers /\ AAnswer)
ASpec == AInit /\ [][ANext]_<<calls, ran, answers>>
=============================================================================
