----------------------------- MODULE UpdImport -----------------------------
(***************************************************************************)
(* Importing modules with the hook of Unpadded installed, as its users see *)
(* it.                                                                     *)
(*                                                                         *)
(*   src[m]   what lies in the directories of sys.path for the name m:     *)
(*     cpp    [v, mark, how, needs] a C++ source of version v (0: none),   *)
(*            marked for the hook or not; how it behaves:                  *)
(*              "ok", "real" (uses the whole library), "broken" (does not  *)
(*              compile), "raises" (its initialization raises an           *)
(*              ImportError), "dies" (another exception), "extra" (needs a *)
(*              header of an extra include directory);                     *)
(*            needs: the module its initialization imports ("": none)      *)
(*     py     [v, how, needs] a Python source (v = 0: none), which is "ok" *)
(*            or "dies"                                                    *)
(*   art[m]   the extension module lying there: [k |-> "none"],            *)
(*            [k |-> "built", v, h, x, needs] built from version v with    *)
(*            the headers h and x, [k |-> "corrupt"], or [k |-> "unknown"] *)
(*            (whatever a failed import left)                              *)
(*   hdr, extra   versions of a header of the library, and of one in the   *)
(*            extra include directory (0: not configured in this process)  *)
(*   loaded   modules imported by the running process                      *)
(*   opened   extension modules the running process has begun to load (the *)
(*            operating system keeps a library it has opened until the end *)
(*            of the process: when its initialization failed, what another *)
(*            attempt finds there is not the new build, hook or no hook,   *)
(*            and is left open)                                            *)
(*   res      result of the last import                                    *)
(*                                                                         *)
(* A result is [k |-> "cpp", v, h, x, n], [k |-> "py", v, n] (n: sequence  *)
(* holding the result for the module it needs, if any), [k |-> "missing"]  *)
(* or [k |-> "fail"].                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES src, art, hdr, extra, loaded, opened, res
ivars == <<src, art, hdr, extra, loaded, opened, res>>

NoCpp == [v |-> 0, mark |-> 0, how |-> "ok", needs |-> ""]
NoPy == [v |-> 0, how |-> "ok", needs |-> ""]
Empty == [cpp |-> NoCpp, py |-> NoPy]
NoArt == [k |-> "none"]
Fail == [k |-> "fail"]
Missing == [k |-> "missing"]
Unknown == [k |-> "unknown"]
Ok(r) == r.k \in {"cpp", "py"}

SrcOf(m) == IF m \in DOMAIN src THEN src[m] ELSE Empty
ArtIn(s, m) == IF m \in DOMAIN s.art THEN s.art[m] ELSE NoArt
Upd(f, m, x) == (m :> x) @@ f

(* An import from a state s = [art, loaded, opened] gives [s, r] *)
RECURSIVE Import(_, _)

(* Initialization of a module which imports another one: Make builds the result from that of the other *)
Finish(s, m, needs, Make(_)) ==
  IF needs = "" THEN [s |-> [s EXCEPT !.loaded = Upd(@, m, Make(<<>>))], r |-> Make(<<>>)]
  ELSE LET q == Import(s, needs) IN
       IF Ok(q.r) THEN [s |-> [q.s EXCEPT !.loaded = Upd(@, m, Make(<<q.r>>))], r |-> Make(<<q.r>>)]
       ELSE [s |-> q.s, r |-> IF q.r = Unknown THEN Unknown ELSE Fail]

(* What Python does without the hook *)
Plain(s, m) ==
  LET a == ArtIn(s, m)  p == SrcOf(m).py IN
  IF a.k = "unknown" THEN [s |-> s, r |-> Unknown]
  ELSE IF a.k = "corrupt" THEN [s |-> s, r |-> Fail]
  ELSE IF a.k = "built" THEN IF m \in s.opened THEN [s |-> s, r |-> Unknown] ELSE Finish([s EXCEPT !.opened = @ \cup {m}], m, a.needs, LAMBDA n : [k |-> "cpp", v |-> a.v, h |-> a.h, x |-> a.x, n |-> n])
  ELSE IF p.v = 0 THEN [s |-> s, r |-> Missing]
  ELSE LET q == Finish(s, m, p.needs, LAMBDA n : [k |-> "py", v |-> p.v, n |-> n]) IN
       IF p.how = "dies" /\ q.r # Unknown THEN [s |-> [q.s EXCEPT !.loaded = [y \in DOMAIN @ \ {m} |-> @[y]]], r |-> Fail] ELSE q

Compiles(c) == c.how # "broken" /\ (c.how = "extra" => extra # 0)
Header(c) == IF c.how = "extra" THEN extra ELSE 0

Import(s, m) ==
  IF m \in DOMAIN s.loaded THEN [s |-> s, r |-> s.loaded[m]]
  ELSE LET c == SrcOf(m).cpp IN
    IF c.v = 0 \/ c.mark = 0 THEN Plain(s, m)
    ELSE IF ~Compiles(c) THEN [s |-> [s EXCEPT !.art = Upd(@, m, Unknown)], r |-> Fail]
    ELSE IF m \in s.opened THEN [s |-> s, r |-> Unknown]
    ELSE IF c.how = "raises" \/ c.how = "dies"
         THEN [s |-> [s EXCEPT !.art = Upd(@, m, Unknown), !.opened = @ \cup {m}], r |-> Fail]
    ELSE LET s2 == [s EXCEPT !.opened = @ \cup {m}, !.art = Upd(@, m, [k |-> "built", v |-> c.v, h |-> hdr, x |-> Header(c), needs |-> c.needs])]
             q == Finish(s2, m, c.needs, LAMBDA n : [k |-> "cpp", v |-> c.v, h |-> hdr, x |-> Header(c), n |-> n]) IN
         IF q.r = Fail THEN [q EXCEPT !.s.art = Upd(@, m, Unknown)] ELSE q

----------------------------------------------------------------------------
IInit == src = <<>> /\ art = <<>> /\ hdr = 1 /\ extra = 0 /\ loaded = <<>> /\ opened = {} /\ res = Missing

SetCpp(m, c) == src' = Upd(src, m, [SrcOf(m) EXCEPT !.cpp = c]) /\ UNCHANGED <<art, hdr, extra, loaded, opened, res>>
SetPy(m, p) == src' = Upd(src, m, [SrcOf(m) EXCEPT !.py = p]) /\ UNCHANGED <<art, hdr, extra, loaded, opened, res>>
SetArt(m, a) == art' = Upd(art, m, a) /\ UNCHANGED <<src, hdr, extra, loaded, opened, res>>
SetHeader(h) == hdr' = h /\ UNCHANGED <<src, art, extra, loaded, opened, res>>
SetExtra(x) == extra' = x /\ UNCHANGED <<src, art, hdr, loaded, opened, res>>
NewProcess == loaded' = <<>> /\ opened' = {} /\ extra' = 0 /\ UNCHANGED <<src, art, hdr, res>>
DoImport(m) ==
  LET q == Import([art |-> art, loaded |-> loaded, opened |-> opened], m) IN
  /\ q.r # Unknown
  /\ art' = q.s.art /\ loaded' = q.s.loaded /\ opened' = q.s.opened /\ res' = q.r
  /\ UNCHANGED <<src, hdr, extra>>
=============================================================================
