------------------------------ MODULE UpdHook ------------------------------
(***************************************************************************)
(* The algorithm of the hook (py/unpadded/hook.py): a finder placed before *)
(* those of Python, re-entered while it builds and loads.                  *)
(*                                                                         *)
(*   find_spec(m): nothing while m is being imported by the hook itself    *)
(*   (Guard = "names"; "flag": while anything is); finds a marked source   *)
(*   or gives up; removes the extension module which lies there, builds,   *)
(*   imports it (through Python's finders, since the hook is now guarded). *)
(*   An ImportError makes Python go on with its own finders.               *)
(*                                                                         *)
(* HookImport is to agree with Import of UpdImport in every reachable      *)
(* state (MCImport checks it; it does not with Guard = "flag": defect D11) *)
(***************************************************************************)
EXTENDS UpdImport

CONSTANT Guard, Shadow

RECURSIVE HookImport(_, _, _)

(* The initialization of an extension module or the execution of a Python one; run: what the hook is busy with *)
HFinish(s, run, m, needs, Make(_)) ==
  IF needs = "" THEN [s |-> [s EXCEPT !.loaded = Upd(@, m, Make(<<>>))], r |-> Make(<<>>)]
  ELSE LET q == HookImport(s, run, needs) IN
       IF Ok(q.r) THEN [s |-> [q.s EXCEPT !.loaded = Upd(@, m, Make(<<q.r>>))], r |-> Make(<<q.r>>)]
       ELSE [s |-> q.s, r |-> IF q.r = Unknown THEN Unknown ELSE [k |-> "fail", imp |-> q.r.k = "missing" \/ ("imp" \in DOMAIN q.r /\ q.r.imp)]]

HFail(imp) == [k |-> "fail", imp |-> imp]     \* imp: the exception is an ImportError

(* Python's own finders.  a.how: how a built module behaves when it is initialized *)
HPlain(s, run, m) ==
  LET a == ArtIn(s, m)  p == SrcOf(m).py IN
  IF a.k = "corrupt" THEN [s |-> s, r |-> HFail(TRUE)]
  ELSE IF a.k = "built"
    THEN IF a.how = "raises" \/ a.how = "dies" THEN [s |-> s, r |-> HFail(a.how = "raises")]
         ELSE HFinish(s, run, m, a.needs, LAMBDA n : [k |-> "cpp", v |-> a.v, h |-> a.h, x |-> a.x, n |-> n])
  ELSE IF p.v = 0 THEN [s |-> s, r |-> Missing]
  ELSE LET q == HFinish(s, run, m, p.needs, LAMBDA n : [k |-> "py", v |-> p.v, n |-> n]) IN
       IF p.how = "dies" THEN [s |-> [q.s EXCEPT !.loaded = [y \in DOMAIN @ \ {m} |-> @[y]]], r |-> HFail(FALSE)] ELSE q

Busy(run, m) == IF Guard = "flag" THEN run # {} ELSE m \in run
Shadowed(run, m) ==
  Guard # "spec" /\ run # {} /\ m \in DOMAIN Shadow /\ LET c == SrcOf(Shadow[m]).cpp IN c.v # 0 /\ c.mark = 1

HookImport(s, run, m) ==
  IF m \in DOMAIN s.loaded THEN [s |-> s, r |-> s.loaded[m]]
  ELSE LET c == SrcOf(m).cpp IN
    IF Shadowed(run, m) THEN [s |-> s, r |-> HFail(FALSE)]      \* or another module than m
    ELSE IF Busy(run, m) \/ c.v = 0 \/ c.mark = 0 THEN HPlain(s, run, m)
    ELSE LET s1 == [s EXCEPT !.art = Upd(@, m, NoArt)] IN       \* os.remove
      IF ~Compiles(c) THEN [s |-> s1, r |-> HFail(FALSE)]        \* the compiler's failure is not an ImportError
      ELSE LET s2 == [s1 EXCEPT !.art = Upd(@, m, [k |-> "built", v |-> c.v, h |-> hdr, x |-> Header(c), needs |-> c.needs,
                                                   how |-> c.how])]
               q == HPlain(s2, IF Guard = "spec" THEN run ELSE run \cup {m}, m) IN
           IF Guard # "spec" /\ q.r.k = "fail" /\ q.r.imp THEN HPlain(q.s, run, m) ELSE q

(* Same visible result; same artifacts where the specification says what they are *)
Agrees(m) ==
  LET base == [art |-> [y \in DOMAIN art |-> IF art[y].k = "built" /\ "how" \notin DOMAIN art[y]
                                             THEN ("how" :> "ok") @@ art[y] ELSE art[y]],
               loaded |-> loaded, opened |-> opened]
      a == Import(base, m)  b == HookImport(base, {}, m) IN
  a.r = Unknown \/ (a.r.k = b.r.k /\ (Ok(a.r) => a.r = b.r) /\ (\A y \in DOMAIN a.s.loaded : y \in DOMAIN b.s.loaded /\ b.s.loaded[y] = a.s.loaded[y])
                    /\ \A y \in DOMAIN a.s.art : a.s.art[y].k = "built" => b.s.art[y].k = "built" /\ b.s.art[y].v = a.s.art[y].v
                                                                        /\ b.s.art[y].h = a.s.art[y].h)
=============================================================================
