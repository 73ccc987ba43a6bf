-------------------------- MODULE TraceDispatcher --------------------------
(***************************************************************************)
(* Is a recorded execution of the real dispatchers, keys and actions a     *)
(* behaviour of UpdDispatcher?  Each line of the trace is one public call  *)
(* with its arguments and everything which was observed of it; the spec    *)
(* action is taken with these arguments and the observations it predicts   *)
(* (those selected by Watch) must be the recorded ones.                    *)
(***************************************************************************)
EXTENDS UpdActions, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Config == JsonDeserialize(IOEnv.KEYRINGS)
TraceKeyrings == Config.keyrings

Watch == Range(Config.watch)   \* which observations are compared

VARIABLE l
vars == <<avars, l>>

ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ ev.e = e /\ l' = l + 1

Report(f, expected, actual) ==
  PrintT(<<"MISMATCH", l, ev.e, f, "EXPECTED", expected, "ACTUAL", actual>>)

Same(f, expected, actual) ==
  f \in Watch => (expected = actual \/ (Report(f, expected, actual) /\ FALSE))

(* Invocations: callback, arguments and count of stateful functors *)
Calls(inv) == [k \in DOMAIN inv |-> inv[k].cb]
Args(inv) == [k \in DOMAIN inv |-> inv[k].a]
Counts(inv) == [k \in DOMAIN inv |-> inv[k].n]
SameInv(inv) ==
  /\ Same("calls", Calls(obs'.inv), Calls(inv))
  /\ Same("args", Args(obs'.inv), Args(inv))
  /\ Same("counts", Counts(obs'.inv), Counts(inv))

(* Guard zones are intact, and which stateful functors are alive: at the end of
   the operation, and while what was moved from is still there *)
Env ==
  /\ "g" \in DOMAIN ev => Same("guard", 1, ev.g)
  /\ "live" \in DOMAIN ev =>
       LET owned == {f \in UNION {{disp'[d].cb[j] : j \in DOMAIN disp'[d].cb} : d \in DOMAIN disp'}
                           \cup {act'[s].cb : s \in DOMAIN act'} : f >= FunctorBase} IN
       /\ Same("live", owned, Range(ev.live))
       /\ "mid" \in DOMAIN ev => Same("live", owned, Range(ev.mid))

(* A destination without an end of its own was given a larger area, filled with 165 *)
Filled(bs) == IF "cap" \in DOMAIN ev THEN bs \o [i \in 1..(Len(ev.out) - Len(bs)) |-> 165] ELSE bs
SameOut(bs) == "noout" \in DOMAIN ev \/ Same("out", Filled(bs), ev.out)
(* How much was taken from some sources cannot be known *)
SameUsed(n) == "nu" \in DOMAIN ev \/ Same("used", n, ev.used)
SameStatus(st) == Same("status", st, ev.st)
SameLoaded == Same("loaded", obs'.ld, ev.ld)

TraceInit == AInit /\ l = 1

TReset == IsEvent("reset") /\ disp' = <<>> /\ cnt' = <<>> /\ act' = <<>> /\ obs' = [op |-> "reset"]
TNew == IsEvent("new") /\ New(ev.d, ev.kr, ev.kind, ev.pol) /\ Env /\ Same("loaded", 0, ev.ld)
TDel == IsEvent("del") /\ Destroy(ev.d) /\ Env
TPut == IsEvent("put") /\ Put(ev.d, ev.b, ev.inv) /\ Env /\ SameInv(ev.inv)
        /\ SameStatus(obs'.st) /\ SameUsed(obs'.used) /\ SameLoaded
TRead == IsEvent("rd") /\ ReadFrom(ev.d, ev.b, ev.inv) /\ Env /\ SameInv(ev.inv)
        /\ SameStatus(obs'.st) /\ SameUsed(obs'.used) /\ SameLoaded
TGet == IsEvent("get") /\ Get(ev.d, ev.n) /\ Env /\ SameOut(obs'.out) /\ SameLoaded
TWrite == IsEvent("wr") /\ WriteTo(ev.d, ev.lim) /\ Env /\ SameOut(obs'.out) /\ SameStatus(obs'.st) /\ SameLoaded
TCall == IsEvent("call") /\ Process(ev.d, ev.b, ev.inv, ev.lim) /\ Env /\ SameInv(ev.inv)
        /\ SameStatus(obs'.st) /\ SameUsed(obs'.used) /\ SameOut(obs'.out) /\ SameLoaded
TAct == IsEvent("act") /\ RunAction(ev.d, ev.i, ev.b, ev.inv, ev.lim) /\ Env /\ SameInv(ev.inv)
        /\ SameStatus(obs'.st) /\ SameUsed(obs'.used) /\ SameOut(obs'.out)
TDisp == IsEvent("disp") /\ Dispatch(ev.d, ev.b, ev.inv, ev.lim) /\ Env /\ SameInv(ev.inv)
        /\ SameStatus(obs'.st) /\ SameUsed(obs'.used) /\ SameOut(obs'.out) /\ Same("index", obs'.idx, ev.idx)
TLookup == IsEvent("idx") /\ Lookup(ev.d, ev.b) /\ Env /\ Same("calls", <<>>, Calls(ev.inv))
        /\ Same("index", <<obs'.idx, obs'.at>>, <<ev.idx, ev.at>>) /\ Same("used", <<obs'.used, obs'.used>>, ev.used)
TReplace == IsEvent("rep") /\ Replace(ev.d, ev.i, ev.f) /\ Env /\ Same("loaded", Loaded(disp'[ev.d]), ev.ld)
TMove == IsEvent("mv") /\ Move(ev.d, ev.d2) /\ Env /\ SameLoaded
TCopy == IsEvent("cp") /\ Copy(ev.d, ev.d2) /\ Env /\ SameLoaded
(* The bytes written by reply(), without what follows them in the area of a pointer *)
Written == IF "cap" \in DOMAIN ev
           THEN LET n == IF ev.ok = 1 THEN Min2(KR[ev.kr].iw + KR[ev.kr].fn[ev.j + 1].as, Len(ev.w)) ELSE 0 IN
                  IF \A i \in (n + 1)..Len(ev.w) : ev.w[i] = 165 THEN SubSeq(ev.w, 1, n) ELSE ev.w
           ELSE ev.w
TReply == IsEvent("reply") /\ Reply(ev.d, ev.kr, ev.j + 1, Written, ev.ok = 1, ev.lim) /\ Env
        /\ Same("reply", <<TRUE, obs'.st>>, <<obs'.ok, ev.st>>) /\ SameLoaded

(* Keys and actions on their own: no state *)
Stateless(op) == disp' = disp /\ cnt' = cnt /\ obs' = [op |-> op]
TEncode == IsEvent("enc") /\ Stateless("enc")
        /\ LET w == EncRequest(KR[ev.kr], ev.j + 1, ev.a) IN
             Same("packet", IF "cap" \in DOMAIN ev THEN w \o [i \in 1..(Len(ev.w) - Len(w)) |-> 165] ELSE w, ev.w)
        /\ SameStatus("R")
TDecode == IsEvent("dec") /\ Stateless("dec")
        /\ LET K == KR[ev.kr]  sz == K.fn[ev.j + 1].rs IN
             IF Len(ev.b) < sz THEN SameStatus("S") /\ SameUsed(Len(ev.b))
             ELSE /\ SameStatus("R")
                  /\ Same("result", DecResult(K, ev.j + 1, SubSeq(ev.b, 1, sz)), ev.v)
                  /\ SameUsed(sz)
HookFormats == TLCEval([k \in DOMAIN Config.hooks |->
                  LET h == Config.hooks[k]  ar == RunsOfSeq(h.a)  rr == RunsOf(h.r) IN
                    TLCEval(Lone(KR[1], [ar |-> ar, as |-> SizeOfRuns(ar), rr |-> rr, rs |-> SizeOfRuns(rr)]))])
THook == IsEvent("hook") /\ Stateless("hook")
        /\ LET H == HookFormats[ev.h + 1]
               a == RunCallback(H, 1, 5000 + ev.h, ev.b, ev.inv, ev.lim) IN
             /\ SameStatus(a.st)
             /\ Same("calls", Calls(a.inv), Calls(ev.inv))
             /\ Same("args", Args(a.inv), Args(ev.inv))
             /\ SameUsed(a.used)
             /\ SameOut(a.out)
             /\ Same("sizes", <<H.fn[1].as, H.fn[1].rs>>, <<ev.insz, ev.outsz>>)

(* Actions held on their own *)
Format == IF ev.what = "h" THEN HookFormats[ev.i + 1] ELSE IF ev.what = "f" THEN Lone(KR[ev.kr], KR[ev.kr].fn[ev.i + 1])
          ELSE Lone(KR[ev.kr], KR[ev.kr].fn[1])
TKeep == IsEvent("keep") /\ Make(ev.s, Format, ev.f, ev.own = 1) /\ Env
TFire == IsEvent("fire") /\ Fire(ev.s, ev.b, ev.inv, ev.lim) /\ Env /\ SameInv(ev.inv)
        /\ SameStatus(obs'.st) /\ SameUsed(obs'.used) /\ SameOut(obs'.out)
        /\ ("insz" \in DOMAIN ev => LET f == act[ev.s].K.fn[1] IN Same("sizes", <<f.as, f.rs>>, <<ev.insz, ev.outsz>>))
TMoveAction == IsEvent("kmv") /\ MoveAction(ev.s, ev.t) /\ Env
TCopyAction == IsEvent("kcp") /\ CopyAction(ev.s, ev.t) /\ Env
TExchange == IsEvent("swp") /\ Exchange(ev.d, ev.i, ev.s) /\ Env /\ Same("loaded", Loaded(disp'[ev.d]), ev.ld)
TInstall == IsEvent("inst") /\ Install(ev.d, ev.i, ev.s) /\ Env /\ Same("loaded", Loaded(disp'[ev.d]), ev.ld)
TInstallCopy == IsEvent("instc") /\ InstallCopy(ev.d, ev.i, ev.s) /\ Env /\ Same("loaded", Loaded(disp'[ev.d]), ev.ld)
TRelease == IsEvent("drop") /\ Release(ev.s) /\ Env

(* Advertised sizes of keyring, keys, actions and dispatchers *)
TSizes == IsEvent("sizes") /\ Stateless("sizes")
        /\ LET K == KR[ev.kr] IN
             Same("sizes", <<K.n, K.iw, InputBufferSize(K), OutputBufferSize(K), SingleBufferSize(K)>>,
                           <<ev.n, ev.iw, ev.ib, ev.ob, ev.sb>>)
TKeySize == IsEvent("ksize") /\ Stateless("ksize")
        /\ LET K == KR[ev.kr]  f == K.fn[ev.j + 1] IN
             /\ Same("sizes", <<K.iw + f.as, K.iw + f.as>>, <<ev.plen, ev.wlen>>)
             /\ Same("packet", ev.j, ev.idx)
TActSize == IsEvent("asize") /\ ev.d \in DOMAIN disp /\ Stateless("asize")
        /\ LET f == KR[disp[ev.d].kr].fn[ev.i + 1] IN
             Same("sizes", <<f.as, f.rs>>, <<ev.insz, ev.outsz>>)

OnDispatchers == TNew \/ TDel \/ TPut \/ TRead \/ TGet \/ TWrite \/ TCall \/ TAct \/ TDisp \/ TLookup \/ TReplace
                 \/ TMove \/ TCopy \/ TReply \/ TEncode \/ TDecode \/ THook \/ TSizes \/ TKeySize \/ TActSize
TraceNext == \/ TReset \/ TKeep \/ TFire \/ TMoveAction \/ TCopyAction \/ TExchange \/ TInstall \/ TInstallCopy \/ TRelease
             \/ (UNCHANGED act /\ OnDispatchers)

TraceSpec == TraceInit /\ [][TraceNext]_vars
(* One state per consumed line plus the initial one *)
TraceAccepted ==
  \/ TLCGet("stats").diameter - 1 = Len(Trace)
  \/ PrintT(<<"REJECTED", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
