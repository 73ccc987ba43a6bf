----------------------------- MODULE TraceTuple -----------------------------
(***************************************************************************)
(* Is a recorded use of the real tuples, views and integer encodings a     *)
(* behaviour of UpdTuple / UpdCodec?                                       *)
(***************************************************************************)
EXTENDS UpdTuple, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Config == JsonDeserialize(IOEnv.KEYRINGS)
TraceLayouts == Config.layouts
Watch == Range(Config.watch)

VARIABLE l
vars == <<tvars, l>>

ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ ev.e = e /\ l' = l + 1

Report(f, expected, actual) ==
  PrintT(<<"MISMATCH", l, ev.e, f, "EXPECTED", expected, "ACTUAL", actual>>)
Same(f, expected, actual) ==
  f \in Watch => (expected = actual \/ (Report(f, expected, actual) /\ FALSE))

(* What the memories contain after the operation; which bytes a checking iterator was dereferenced at *)
Memories ==
  /\ \A k \in DOMAIN ev.mem : Same("mem", mem'[ev.mem[k].r], ev.mem[k].b)
  /\ "acc" \in DOMAIN ev =>
       LET out == {k \in DOMAIN ev.acc : <<ev.ar, ev.acc[k] + 1>> \notin obs'.fp} IN
         Same("access", {}, {ev.acc[k] : k \in out})

TraceInit == TInit /\ l = 1
TReset == IsEvent("reset") /\ mem' = <<>> /\ objs' = <<>> /\ obs' = [op |-> "reset", fp |-> {}]
TRegion == IsEvent("region") /\ NewRegion(ev.r, ev.b) /\ Memories
TTuple == IsEvent("tuple") /\ (IF "v" \in DOMAIN ev THEN NewTuple(ev.o, ev.k + 1, ev.v) ELSE NewDefault(ev.o, ev.k + 1)) /\ Memories
TView == IsEvent("view") /\ NewView(ev.o, ev.r, ev.off, ev.k + 1) /\ Memories
TSlice == IsEvent("slice") /\ Slice(ev.o, ev.p, ev.i, ev.n) /\ Memories
TCopy == IsEvent("copy") /\ CopyTuple(ev.o, ev.p) /\ Memories
TSet == IsEvent("set") /\ SetElement(ev.o, ev.i, ev.v) /\ Memories
TGet == IsEvent("get") /\ GetElement(ev.o, ev.i) /\ Same("value", obs'.v, ev.v) /\ Memories
TAssign == IsEvent("assign") /\ Assign(ev.o, ev.v) /\ Memories
TOver == IsEvent("over") /\ Over(ev.o, ev.from) /\ Memories
TInvoke == IsEvent("invoke") /\ Invoke(ev.o) /\ Same("value", obs'.v, ev.v) /\ Same("calls", <<1, 1>>, <<ev.calls, ev.ret>>) /\ Memories
TPoke == IsEvent("poke") /\ Poke(ev.r, ev.at, ev.x) /\ Memories
TSize == IsEvent("size") /\ Inspect(ev.o) /\ Same("sizes", <<obs'.n, obs'.c>>, <<ev.n, ev.c>>) /\ Same("content", obs'.b, ev.b) /\ Memories

(* Integers on their own: c values of the type [k, n], concatenated *)
Stateless == UNCHANGED tvars
TEnc == IsEvent("enc") /\ Stateless
        /\ Same("encoding", EncRun([k |-> ev.k, n |-> ev.n, c |-> ev.c], ev.en, ev.mo, ev.v, 0), ev.b)
TDec == IsEvent("dec") /\ Stateless
        /\ Same("decoding", DecRun([k |-> ev.k, n |-> ev.n, c |-> ev.c], ev.en, ev.mo, ev.b, 0), ev.v)
(* The same, for the byte pairs <<x, hi>> in canonical order, x from 0 to 255: exhaustive tables *)
TEnc256 == IsEvent("enc256") /\ Stateless
        /\ LET v == FlattenSeq([x \in 1..256 |-> IF ev.n = 1 THEN <<x - 1>> ELSE <<x - 1, ev.hi>>])
               lo == IF ev.skip = 1 THEN ev.n ELSE 0 IN  \* the first value may be one which cannot be expressed
             Same("encoding", EncRun([k |-> ev.k, n |-> ev.n, c |-> 256 - ev.skip], ev.en, ev.mo, SubSeq(v, lo + 1, Len(v)), 0), ev.b)
TDec256 == IsEvent("dec256") /\ Stateless
        /\ LET b == FlattenSeq([x \in 1..256 |-> IF ev.n = 1 THEN <<x - 1>> ELSE <<x - 1, ev.hi>>]) IN
             Same("decoding", DecRun([k |-> ev.k, n |-> ev.n, c |-> 256], ev.en, ev.mo, b, 0), ev.v)

TraceNext == \/ TReset \/ TRegion \/ TTuple \/ TView \/ TSlice \/ TCopy \/ TSet \/ TGet \/ TAssign \/ TOver \/ TInvoke \/ TPoke \/ TSize
             \/ TEnc \/ TDec \/ TEnc256 \/ TDec256
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted ==
  \/ TLCGet("stats").diameter - 1 = Len(Trace)
  \/ PrintT(<<"REJECTED", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
