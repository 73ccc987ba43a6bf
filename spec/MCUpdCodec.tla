----------------------------- MODULE MCUpdCodec -----------------------------
(***************************************************************************)
(* Checks UpdCodec against the arithmetic meaning of the representations:  *)
(* exhaustively for 8 and 16 bits, and on byte patterns for 32 and 64 bits *)
(* where the round trip, canonical zero and bijectivity laws are checked.  *)
(***************************************************************************)
EXTENDS UpdCodec, FiniteSets

CONSTANT Wide      \* byte values used for the 4- and 8-byte patterns

VARIABLES n, w, e, m, k
vars == <<n, w, e, m, k>>

Strings == [1..1 -> Byte] \cup [1..2 -> Byte] \cup [1..4 -> Wide]
           \cup {Repeat(<<a>>, 7) \o <<b>> : a \in Wide, b \in Wide}
           \cup {<<a>> \o Repeat(<<b>>, 6) \o <<c>> : a \in Wide, b \in {0, 255}, c \in Wide}

Init == /\ n \in {1, 2, 4, 8} /\ w = <<>> /\ e \in Endians /\ m \in Modes /\ k \in {"u", "s", "b"}
        /\ (k = "b" => n = 1)
Next == /\ w = <<>>
        /\ w' \in {s \in Strings : Len(s) = n}
        /\ UNCHANGED <<n, e, m, k>>
Spec == Init /\ [][Next]_vars

(* Arithmetic meaning *)
U(x) == IF Len(x) = 1 THEN x[1] ELSE x[1] + 256 * x[2]      \* little-endian
P(x) == IF Len(x) = 1 THEN 256 ELSE 65536
TwosVal(x) == IF U(x) >= P(x) \div 2 THEN U(x) - P(x) ELSE U(x)
Val(kind, x) == IF kind = "s" THEN TwosVal(x) ELSE U(x)      \* meaning of canonical bytes
RepVal(kind, mode, x) ==                                     \* meaning of a representation
  IF kind = "b" THEN IF U(x) = 0 THEN 0 ELSE 1
  ELSE IF kind = "u" THEN U(x)
  ELSE LET u == U(x)  h == P(x) \div 2 IN
       CASE mode = "TWOS_COMPLEMENT" -> IF u >= h THEN u - 2 * h ELSE u
         [] mode = "OFFSET_BINARY" -> u - h
         [] mode = "ONES_COMPLEMENT" -> IF u >= h THEN u - (2 * h - 1) ELSE u
         [] mode = "SIGNED_MAGNITUDE" -> IF u >= h THEN 0 - (u - h) ELSE u

Small == w # <<>> /\ Len(w) <= 2
DecodesToMeaning == Small => Val(k, DecScalar(k, e, m, w)) = RepVal(k, m, Order(e, w))
EncodesMeaning == (Small /\ Expressible(k, m, w)) => RepVal(k, m, Order(e, EncScalar(k, e, m, w))) = Val(k, w)

Expr == w # <<>> /\ Expressible(k, m, w)
RoundTrip == Expr => DecScalar(k, e, m, EncScalar(k, e, m, w)) = w
SameLength == w # <<>> => Len(EncScalar(k, e, m, w)) = n /\ Len(DecScalar(k, e, m, w)) = n
AllBytes == w # <<>> => \A i \in 1..n : EncScalar(k, e, m, w)[i] \in Byte /\ DecScalar(k, e, m, w)[i] \in Byte
(* Every pattern is the encoding of what it decodes to, except the second zero and non-canonical bool *)
Canonical == w # <<>> =>
  LET d == DecScalar(k, e, m, w) IN
    /\ Expressible(k, m, d)
    /\ EncScalar(k, e, m, d) = w \/ (IsZero(d) /\ m \in {"ONES_COMPLEMENT", "SIGNED_MAGNITUDE"} /\ k = "s")
       \/ (k = "b" /\ d = <<1>>)
(* The two byte orders are mirror images *)
Mirror == Expr => EncScalar(k, "BIG", m, w) = Reverse(EncScalar(k, "LITTLE", m, w))

(* Composite types *)
T1 == [k |-> "o", f |-> <<[k |-> "u", n |-> 1], [k |-> "a", c |-> 2, e |-> [k |-> "s", n |-> 2]]>>]
T2 == [k |-> "a", c |-> 2, e |-> T1]
ASSUME SizeOf(T1) = 5 /\ SizeOf(T2) = 10 /\ SizeOfSeq(<<T1, T2, [k |-> "v"]>>) = 15
ASSUME \A mm \in Modes, ee \in Endians :
         LET v == <<1, 2, 3, 255, 254, 4, 5, 6, 0, 129>>
             x == Enc(RunsOf(T2), ee, mm, v) IN
           /\ Len(x) = 10 /\ Dec(RunsOf(T2), ee, mm, x) = v
           /\ SubSeq(x, 1, 5) = Enc(RunsOf(T1), ee, mm, SubSeq(v, 1, 5))
           /\ SubSeq(x, 6, 10) = Enc(RunsOf(T1), ee, mm, SubSeq(v, 6, 10))
           /\ x[1] = 1 /\ x[6] = 4
ASSUME Enc(RunsOf([k |-> "a", c |-> 2, e |-> [k |-> "s", n |-> 2]]), "BIG", "SIGNED_MAGNITUDE", <<1, 0, 254, 255>>) = <<0, 1, 128, 2>>
ASSUME \A x \in {0, 1, 254, 255, 256, 257, 300, 65535} : \A ee \in Endians :
         DecIndex(EncIndex(x, 2, ee), ee) = x
ASSUME IndexWidth(255) = 1 /\ IndexWidth(256) = 2 /\ EncIndex(258, 2, "BIG") = <<1, 2>>
=============================================================================
