----------------------------- MODULE UpdPython -----------------------------
(***************************************************************************)
(* Python's view of the values which travel: what a Python object denotes  *)
(* for a parameter type, which objects denote nothing and must be          *)
(* rejected, and which object stands for a value given back to Python.     *)
(*                                                                         *)
(* A Python object is a record                                             *)
(*   [t |-> "i", s |-> sign, m |-> magnitude]  int: little-endian bytes of *)
(*                                             its magnitude, no high zero *)
(*   [t |-> "b", v |-> 0 or 1]   bool                                      *)
(*   [t |-> "l", e |-> <<objects>>]   list                                 *)
(*   [t |-> "n"]   None                                                    *)
(*   [t |-> "x"]   anything else                                           *)
(***************************************************************************)
EXTENDS UpdDispatcher

Nothing == <<-1>>   \* denotes no value

PadTo(m, n) == [i \in 1..n |-> IF i <= Len(m) THEN m[i] ELSE 0]
Below(m, n) == Len(m) < n \/ (Len(m) = n /\ m[n] < 128)        \* m < 2^(8n-1)
Least(m, n) == Len(m) = n /\ m[n] = 128 /\ \A i \in 1..(n - 1) : m[i] = 0

RECURSIVE Denoted(_, _)
(* Canonical bytes of the value of type t an object denotes *)
Denoted(t, o) ==
  CASE t.k = "u" -> IF o.t = "i" /\ o.s = 0 /\ Len(o.m) <= t.n THEN PadTo(o.m, t.n) ELSE Nothing
    [] t.k = "s" -> IF o.t # "i" THEN Nothing
                    ELSE IF o.s = 0 THEN IF Below(o.m, t.n) THEN PadTo(o.m, t.n) ELSE Nothing
                    ELSE IF Below(o.m, t.n) \/ Least(o.m, t.n) THEN Neg(PadTo(o.m, t.n)) ELSE Nothing
    [] t.k = "b" -> IF o.t = "b" THEN <<o.v>> ELSE Nothing
    [] t.k = "a" -> IF o.t = "l" /\ Len(o.e) = t.c
                    THEN LET es == TLCEval([i \in 1..t.c |-> Denoted(t.e, o.e[i])]) IN
                           IF \E i \in 1..t.c : es[i] = Nothing THEN Nothing ELSE FlattenSeq(es)
                    ELSE Nothing
    [] t.k = "v" -> <<>>     \* what a callback returning void returns is ignored

(* Same for the arguments of a call *)
DenotedAll(ts, os) ==
  IF Len(ts) # Len(os) THEN Nothing
  ELSE LET es == TLCEval([i \in DOMAIN ts |-> Denoted(ts[i], os[i])]) IN
         IF \E i \in DOMAIN ts : es[i] = Nothing THEN Nothing ELSE FlattenSeq(es)

(* Is this object the one which stands for the value of type t whose canonical bytes are v? *)
StandsFor(t, o, v) == IF t.k = "v" THEN o.t = "n" ELSE Denoted(t, o) = v
=============================================================================
