----------------------------- MODULE UpdActions -----------------------------
(***************************************************************************)
(* Actions held on their own: hooks planned with a key for the responses   *)
(* to come, callbacks wrapped by hand, actions taken out of a dispatcher.  *)
(*                                                                         *)
(*   act[s]  the action held in s                                          *)
(*     K    the format of its bytes, as a keyring of the only function     *)
(*     cb   its callback, -1 for an action made of nothing                 *)
(*     own  whether it owns it (upd::action) or not (no_storage_action)    *)
(*                                                                         *)
(* An action may be run any number of times, at any time, moved, exchanged *)
(* with the one of a dispatcher or installed in its place; an owned functor keeps its state from one *)
(* run to the next and lives exactly as long as it has an owner.           *)
(***************************************************************************)
EXTENDS UpdDispatcher

VARIABLE act
avars == <<dvars, act>>

AInit == DInit /\ act = <<>>

Lone(K, f) == [en |-> K.en, mo |-> K.mo, fn |-> <<f>>]
Held(s) == s \in DOMAIN act

Make(s, lone, cb, own) ==
  /\ act' = Put1(act, s, [K |-> lone, cb |-> cb, own |-> own])
  /\ cnt' = IF cb >= FunctorBase THEN Put1(cnt, cb, 0) ELSE cnt
  /\ obs' = [op |-> "make"]
  /\ UNCHANGED disp

Fire(s, bs, env, lim) ==
  /\ Held(s)
  /\ LET a == act[s]
         r == IF a.cb = -1 THEN [st |-> "R", used |-> 0, out |-> <<>>, inv |-> <<>>]
              ELSE RunCallback(a.K, 1, a.cb, bs, env, lim) IN
       /\ obs' = [op |-> "fire", st |-> r.st, used |-> r.used, out |-> r.out, inv |-> WithCounts(cnt, r.inv)]
       /\ cnt' = Bump(cnt, r.inv)
  /\ UNCHANGED <<disp, act>>

MoveAction(s, t) ==
  /\ Held(s) /\ act' = Put1(Drop(act, s), t, act[s])
  /\ obs' = [op |-> "kmv"] /\ UNCHANGED <<disp, cnt>>

CopyAction(s, t) ==
  /\ Held(s) /\ ~act[s].own /\ act' = Put1(act, t, act[s])
  /\ obs' = [op |-> "kcp"] /\ UNCHANGED <<disp, cnt>>

(* std::swap(dispatcher[i], action), both made for the same signature *)
Exchange(d, i, s) ==
  /\ Held(s) /\ d \in DOMAIN disp /\ act[s].own = (disp[d].pol = "any")
  /\ act[s].K = Lone(KR[disp[d].kr], KR[disp[d].kr].fn[i + 1]) /\ act[s].cb # -1
  /\ disp' = [disp EXCEPT ![d].cb[i + 1] = act[s].cb]
  /\ act' = [act EXCEPT ![s].cb = disp[d].cb[i + 1]]
  /\ obs' = [op |-> "swp"] /\ UNCHANGED cnt

(* dispatcher[i] = std::move(action), or a copy of an action which owns nothing:
   the callback which was there is released at once *)
Install(d, i, s) ==
  /\ Held(s) /\ d \in DOMAIN disp /\ act[s].own = (disp[d].pol = "any")
  /\ act[s].K = Lone(KR[disp[d].kr], KR[disp[d].kr].fn[i + 1]) /\ act[s].cb # -1
  /\ disp' = [disp EXCEPT ![d].cb[i + 1] = act[s].cb]
  /\ act' = Drop(act, s)
  /\ obs' = [op |-> "inst"] /\ UNCHANGED cnt

InstallCopy(d, i, s) ==
  /\ Held(s) /\ ~act[s].own /\ d \in DOMAIN disp /\ disp[d].pol = "weak"
  /\ act[s].K = Lone(KR[disp[d].kr], KR[disp[d].kr].fn[i + 1])
  /\ disp' = [disp EXCEPT ![d].cb[i + 1] = act[s].cb]
  /\ obs' = [op |-> "instc"] /\ UNCHANGED <<cnt, act>>

Release(s) ==
  /\ Held(s) /\ act' = Drop(act, s)
  /\ obs' = [op |-> "drop"] /\ UNCHANGED <<disp, cnt>>

HeldFunctors == {f \in {act[s].cb : s \in DOMAIN act} : f >= FunctorBase}
=============================================================================
