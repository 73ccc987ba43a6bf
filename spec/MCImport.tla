------------------------------ MODULE MCImport ------------------------------
(***************************************************************************)
(* Explores UpdImport over an alphabet of operations, checks UpdHook       *)
(* against it, and generates schedules for the real hook.                  *)
(***************************************************************************)
EXTENDS UpdHook, Json, IOUtils, SequencesExt

Plan == JsonDeserialize(IOEnv.SCHEDULE)   \* [mode, depth, ops |-> <<records>>]
PlanGuard == Plan.guard
PlanShadow == Plan.shadow
VARIABLE hist
vars == <<ivars, hist>>

MInit == IInit /\ hist = <<>>
Do(o) ==
  CASE o.op = "cpp" -> SetCpp(o.m, [v |-> o.v, mark |-> o.mark, how |-> o.how, needs |-> o.needs])
    [] o.op = "py" -> SetPy(o.m, [v |-> o.v, how |-> o.how, needs |-> o.needs])
    [] o.op = "delart" -> SetArt(o.m, NoArt)
    [] o.op = "corrupt" -> SetArt(o.m, [k |-> "corrupt"])
    [] o.op = "hdr" -> hdr # o.h /\ SetHeader(o.h)
    [] o.op = "extra" -> extra # o.h /\ SetExtra(o.h)
    [] o.op = "proc" -> (loaded # <<>> \/ opened # {}) /\ NewProcess
    [] o.op = "imp" -> DoImport(o.m)
MNext ==
  /\ Len(hist) < Plan.depth
  /\ \E k \in DOMAIN Plan.ops :
       /\ Do(Plan.ops[k])
       /\ hist' = Append(hist, k)
       /\ (Plan.mode = "edges" /\ Plan.ops[k].op = "imp") => PrintT(<<"SCHEDULE", hist'>>)
       /\ (Plan.mode = "all" /\ Len(hist') = Plan.depth) => PrintT(<<"SCHEDULE", hist'>>)
MSpec == MInit /\ [][MNext]_vars
View == IF Plan.mode = "all" THEN <<ivars, hist>> ELSE <<src, art, hdr, extra, loaded, opened>>

Names == {Plan.ops[k].m : k \in {x \in DOMAIN Plan.ops : "m" \in DOMAIN Plan.ops[x]}}
HookAgrees == \A m \in Names : Agrees(m)

Q(m) == Import([art |-> art, loaded |-> loaded, opened |-> opened], m)
(* The guarantees, independently of how Import is defined *)
Current ==
  \A m \in Names : LET c == SrcOf(m).cpp  q == Q(m) IN
    m \notin DOMAIN loaded /\ c.v # 0 /\ c.mark = 1 /\ Ok(q.r) => q.r.k = "cpp" /\ q.r.v = c.v /\ q.r.h = hdr
(* A failed build fails, and does not depend on what lies beside the source *)
Fails ==
  \A m \in Names : LET c == SrcOf(m).cpp IN
    m \notin DOMAIN loaded /\ c.v # 0 /\ c.mark = 1 /\ ~Compiles(c) => Q(m).r = Fail
(* A failed import leaves the others as they were (when none needs another) *)
Lonely == \A m \in Names : SrcOf(m).cpp.needs = "" /\ SrcOf(m).py.needs = ""
Independent ==
  Lonely => \A m \in Names : LET q == Q(m) IN
    q.r = Fail => \A n \in Names \ {m} : Import(q.s, n).r = Q(n).r
(* Names without a marked source behave as without the hook *)
Transparent ==
  \A m \in Names : LET c == SrcOf(m).cpp IN
    m \notin DOMAIN loaded /\ (c.v = 0 \/ c.mark = 0) => Q(m) = Plain([art |-> art, loaded |-> loaded, opened |-> opened], m)
(* Within a process a module is imported once *)
Stable == \A m \in DOMAIN loaded : Q(m).r = loaded[m] /\ Q(m).s = [art |-> art, loaded |-> loaded, opened |-> opened]
=============================================================================
