------------------------------ MODULE UpdCodec ------------------------------
(***************************************************************************)
(* The wire format of Unpadded.                                            *)
(*                                                                         *)
(* TLC's integers have 32 bits, so every value is handled in a canonical   *)
(* form which is independent of the format under specification: the        *)
(* little-endian two's complement byte string of its type's size           *)
(* ("canonical bytes").  MCUpdCodec checks these byte-wise definitions     *)
(* against their arithmetic meaning.                                       *)
(*                                                                         *)
(* A type descriptor is a record                                           *)
(*   [k |-> "u", n |-> size]         unsigned integer                      *)
(*   [k |-> "s", n |-> size]         signed integer                        *)
(*   [k |-> "b", n |-> 1]            bool                                  *)
(*   [k |-> "a", c |-> count, e |-> type]   array                          *)
(*   [k |-> "o", f |-> <<types>>]    user-extended type, its members       *)
(*   [k |-> "v"]                     void                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

Endians == {"LITTLE", "BIG"}
Modes == {"SIGNED_MAGNITUDE", "ONES_COMPLEMENT", "TWOS_COMPLEMENT", "OFFSET_BINARY"}
Byte == 0..255

----------------------------------------------------------------------------
(* Byte-wise arithmetic modulo 2^(8n) on little-endian strings.            *)

Compl(v) == [i \in DOMAIN v |-> 255 - v[i]]
Inc(v) == [i \in DOMAIN v |-> IF \A j \in 1..(i - 1) : v[j] = 255 THEN (v[i] + 1) % 256 ELSE v[i]]
Decr(v) == [i \in DOMAIN v |-> IF \A j \in 1..(i - 1) : v[j] = 0 THEN (v[i] + 255) % 256 ELSE v[i]]
Neg(v) == Inc(Compl(v))
IsNeg(v) == v[Len(v)] >= 128
FlipSign(v) == [v EXCEPT ![Len(v)] = (@ + 128) % 256]
IsZero(v) == \A i \in DOMAIN v : v[i] = 0
IsMin(v) == v[Len(v)] = 128 /\ \A i \in 1..(Len(v) - 1) : v[i] = 0

(* Values which the representation can express. *)
Expressible(k, mode, v) ==
  CASE k = "b" -> v \in {<<0>>, <<1>>}
    [] k = "u" -> TRUE
    [] k = "s" -> mode \in {"SIGNED_MAGNITUDE", "ONES_COMPLEMENT"} => ~IsMin(v)

(* Representation of a canonical value, least significant byte first. *)
Represent(k, mode, v) ==
  IF k # "s" THEN v
  ELSE CASE mode = "TWOS_COMPLEMENT" -> v
         [] mode = "OFFSET_BINARY" -> FlipSign(v)
         [] mode = "ONES_COMPLEMENT" -> IF IsNeg(v) THEN Decr(v) ELSE v
         [] mode = "SIGNED_MAGNITUDE" -> IF IsNeg(v) THEN FlipSign(Neg(v)) ELSE v

(* Canonical value denoted by a representation. *)
Denote(k, mode, w) ==
  IF k = "u" THEN w
  ELSE IF k = "b" THEN <<IF IsZero(w) THEN 0 ELSE 1>>
  ELSE CASE mode = "TWOS_COMPLEMENT" -> w
         [] mode = "OFFSET_BINARY" -> FlipSign(w)
         [] mode = "ONES_COMPLEMENT" -> IF IsNeg(w) THEN Inc(w) ELSE w
         [] mode = "SIGNED_MAGNITUDE" -> IF IsNeg(w) THEN Neg(FlipSign(w)) ELSE w

Order(endian, w) == IF endian = "BIG" THEN Reverse(w) ELSE w

EncScalar(k, endian, mode, v) == Order(endian, Represent(k, mode, v))
DecScalar(k, endian, mode, w) == Denote(k, mode, Order(endian, w))

----------------------------------------------------------------------------
(* Composite types: a sequence of types is flattened into runs             *)
(* [k, n, c] of c consecutive scalars.                                     *)

RECURSIVE RunsOf(_), RunsOfSeq(_), Repeat(_, _)
Repeat(s, c) == IF c = 0 THEN <<>> ELSE s \o Repeat(s, c - 1)
RunsOf(t) ==
  CASE t.k \in {"u", "s", "b"} -> <<[k |-> t.k, n |-> t.n, c |-> 1]>>
    [] t.k = "a" -> LET e == RunsOf(t.e) IN
                      IF Len(e) = 1 THEN <<[e[1] EXCEPT !.c = @ * t.c]>> ELSE Repeat(e, t.c)
    [] t.k = "o" -> RunsOfSeq(t.f)
    [] t.k = "v" -> <<>>
RunsOfSeq(ts) == IF ts = <<>> THEN <<>> ELSE RunsOf(Head(ts)) \o RunsOfSeq(Tail(ts))

RunSize(r) == r.n * r.c
SizeOfRuns(rs) == FoldLeft(LAMBDA acc, r : acc + RunSize(r), 0, rs)
SizeOf(t) == SizeOfRuns(RunsOf(t))
SizeOfSeq(ts) == SizeOfRuns(RunsOfSeq(ts))

(* Apply Op to every scalar of a run held in v at offset off *)
MapRun(Op(_), r, v, off) ==
  LET leaves == TLCEval([i \in 1..r.c |-> TLCEval(Op(SubSeq(v, off + (i - 1) * r.n + 1, off + i * r.n)))])
  IN FlattenSeq(leaves)

EncRun(r, endian, mode, v, off) ==
  IF r.k # "s" /\ r.n = 1 THEN SubSeq(v, off + 1, off + RunSize(r))
  ELSE MapRun(LAMBDA x : EncScalar(r.k, endian, mode, x), r, v, off)
DecRun(r, endian, mode, w, off) ==
  IF r.k = "u" /\ r.n = 1 THEN SubSeq(w, off + 1, off + RunSize(r))
  ELSE MapRun(LAMBDA x : DecScalar(r.k, endian, mode, x), r, w, off)

RECURSIVE EncFrom(_, _, _, _, _), DecFrom(_, _, _, _, _)
EncFrom(rs, endian, mode, v, off) ==
  IF rs = <<>> THEN <<>>
  ELSE EncRun(Head(rs), endian, mode, v, off) \o EncFrom(Tail(rs), endian, mode, v, off + RunSize(Head(rs)))
DecFrom(rs, endian, mode, w, off) ==
  IF rs = <<>> THEN <<>>
  ELSE DecRun(Head(rs), endian, mode, w, off) \o DecFrom(Tail(rs), endian, mode, w, off + RunSize(Head(rs)))

(* Encoding of the canonical bytes v of a sequence of runs, and back.  The *)
(* canonical bytes of a sequence of values are the concatenation of        *)
(* theirs.                                                                 *)
Enc(rs, endian, mode, v) == TLCEval(EncFrom(rs, endian, mode, v, 0))
Dec(rs, endian, mode, w) == TLCEval(DecFrom(rs, endian, mode, w, 0))

----------------------------------------------------------------------------
(* Indices: unsigned, wide enough for the number of functions.             *)

IndexWidth(count) == IF count < 256 THEN 1 ELSE IF count < 65536 THEN 2 ELSE 4

RECURSIVE NatOf(_)
(* Little-endian bytes to natural number, saturated: an index never        *)
(* exceeds 2^24 in a keyring TLC can handle.                               *)
NatOf(w) == IF w = <<>> THEN 0
            ELSE IF Len(w) > 3 THEN IF \A i \in 4..Len(w) : w[i] = 0 THEN NatOf(SubSeq(w, 1, 3)) ELSE 16777216
            ELSE w[1] + 256 * NatOf(Tail(w))
BytesOf(x, width) == [i \in 1..width |-> CASE i = 1 -> x % 256
                                           [] i = 2 -> (x \div 256) % 256
                                           [] i = 3 -> (x \div 65536) % 256
                                           [] OTHER -> 0]
EncIndex(x, width, endian) == Order(endian, BytesOf(x, width))
DecIndex(w, endian) == NatOf(Order(endian, w))
=============================================================================
