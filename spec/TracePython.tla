---------------------------- MODULE TracePython ----------------------------
(***************************************************************************)
(* Is a recorded use of the Python bindings a behaviour of UpdDispatcher   *)
(* (a double-buffered dispatcher accepting any callback) seen through      *)
(* UpdPython?  The invocations of Python callbacks are recorded as Python  *)
(* objects: they are brought to canonical bytes when the event is read.  *)
(***************************************************************************)
EXTENDS TraceDispatcher, UpdPython

Fn(kr, j) == Keyrings[kr].fns[j + 1]

(* A Python callback which returns an object denoting no result fails *)
LowerCall(c) ==
  IF "pa" \notin DOMAIN c THEN c
  ELSE LET f == Fn(1, c.j)
           r == IF c.x = 1 THEN Nothing ELSE Denoted(f.r, c.pr) IN
         [cb |-> c.cb, n |-> c.n, a |-> DenotedAll(f.a, c.pa),
          x |-> IF r = Nothing THEN 1 ELSE 0, r |-> IF r = Nothing THEN <<>> ELSE r]
Lower(e) == IF "inv" \in DOMAIN e THEN [e EXCEPT !.inv = [k \in DOMAIN e.inv |-> LowerCall(e.inv[k])]] ELSE e
PyEvent == Lower(Trace[l])   \* replaces ev

TPyEncode == IsEvent("penc") /\ Stateless("penc")
        /\ LET v == DenotedAll(Fn(ev.kr, ev.j).a, ev.a) IN
             IF v = Nothing THEN SameStatus("E")
             ELSE SameStatus("R") /\ Same("packet", EncRequest(KR[ev.kr], ev.j + 1, v), ev.w)
TPyDecode == IsEvent("pdec") /\ Stateless("pdec")
        /\ LET K == KR[ev.kr]  sz == K.fn[ev.j + 1].rs IN
             IF Len(ev.b) < sz THEN SameStatus("E")
             ELSE /\ SameStatus("R")
                  /\ LET r == DecResult(K, ev.j + 1, SubSeq(ev.b, 1, sz)) IN
                       Same("result", <<r, TRUE>>, <<r, StandsFor(Fn(ev.kr, ev.j).r, ev.v, r)>>)
(* The keys of a keyring are all exposed under the names of their functions, and know their positions *)
TPyKeys == IsEvent("pkeys") /\ Stateless("pkeys")
        /\ Same("index", [i \in 1..KR[ev.kr].n |-> i - 1], ev.idx)
(* An operation given what it cannot take is rejected and has no effect *)
TPyBad == IsEvent("pbad") /\ ev.d \in DOMAIN disp /\ Stateless("pbad")
        /\ SameStatus("E") /\ Same("loaded", Loaded(disp[ev.d]), ev.ld)
(* An exception where nothing can fail *)
TPyFail == IsEvent("pfail") /\ UNCHANGED dvars /\ Same("status", "R", ev.what)

PyNext == TraceNext \/ (UNCHANGED act /\ (TPyEncode \/ TPyDecode \/ TPyKeys \/ TPyBad \/ TPyFail))
PySpec == TraceInit /\ [][PyNext]_vars
=============================================================================
