------------------------------- MODULE MCTuple -------------------------------
(***************************************************************************)
(* A small exhaustive instance of UpdTuple: a tuple, a slice of it, a view *)
(* of an area and a view overlapping it, written and read in every order.  *)
(***************************************************************************)
EXTENDS UpdTuple

CONSTANTS Vals, MaxOps

U(n) == [k |-> "u", n |-> n]
S(n) == [k |-> "s", n |-> n]
MCLayouts == <<[en |-> "BIG", mo |-> "SIGNED_MAGNITUDE", t |-> <<U(1), [k |-> "a", c |-> 2, e |-> S(1)], S(2)>>],
               [en |-> "LITTLE", mo |-> "TWOS_COMPLEMENT", t |-> <<S(2), [k |-> "b", n |-> 1]>>]>>

VARIABLES last,   \* last[o][i]: value last given to element i of tuple 1, unless it was since written through something else
          ops
vars == <<tvars, last, ops>>

(* Values of an element, made of the bytes Vals *)
ValuesOf(o, i) == {[x \in 1..objs[o].el[i].n |-> b] : b \in Vals}
Ok(o, i, v) == \A r \in DOMAIN objs[o].el[i].rr : objs[o].el[i].rr[r].k = "b" => v \in {<<0>>, <<1>>}

MCInit == TInit /\ last = <<>> /\ ops = 0
Setup ==
  /\ ops = 0 /\ ops' = 1
  /\ LET t == [r |-> 1, off |-> 0, en |-> LAY[1].en, mo |-> LAY[1].mo, el |-> LAY[1].el] IN
       /\ objs' = (1 :> t) @@ (2 :> [t EXCEPT !.off = 1, !.el = SubSeq(@, 2, 3)])
                  @@ (3 :> [r |-> 9, off |-> 1, en |-> LAY[2].en, mo |-> LAY[2].mo, el |-> LAY[2].el])
                  @@ (4 :> [r |-> 9, off |-> 2, en |-> LAY[2].en, mo |-> LAY[2].mo, el |-> LAY[2].el])
       /\ mem' = (1 :> Encoded(t, Zeros(5))) @@ (9 :> <<200, 201, 202, 203, 204, 205>>)
  /\ obs' = [op |-> "setup", fp |-> {}]
  /\ last' = (1 :> Split(LAY[1].el, Zeros(5)))
More == ops > 0 /\ ops < MaxOps /\ ops' = ops + 1

Sets == \E o \in DOMAIN objs : \E i \in DOMAIN objs[o].el : \E v \in ValuesOf(o, i) :
  /\ Ok(o, i, v) /\ SetElement(o, i - 1, v)
  /\ last' = CASE o = 1 -> [last EXCEPT ![1][i] = v]
               [] o = 2 -> [last EXCEPT ![1][i + 1] = v]
               [] OTHER -> last
Gets == \E o \in DOMAIN objs : \E i \in DOMAIN objs[o].el : GetElement(o, i - 1) /\ UNCHANGED last
Assigns == \E b \in Vals \cap {0, 1, 127} : Assign(1, <<b, b, b, b, b>>) /\ last' = (1 :> Split(LAY[1].el, <<b, b, b, b, b>>))
Overs == \E o \in {3, 4} : \E from \in 0..3 : Over(o, from) /\ UNCHANGED last
Invokes == \E o \in DOMAIN objs : Invoke(o) /\ UNCHANGED last
Pokes == \E at \in 0..5 : Poke(9, at, 129) /\ UNCHANGED last

MCNext == Setup \/ (More /\ (Sets \/ Gets \/ Assigns \/ Overs \/ Invokes \/ Pokes))
MCSpec == MCInit /\ [][MCNext]_vars

(* C03: every element keeps the value last given to it, the storage is the concatenation of the encodings *)
KeepsValues == ops > 0 =>
  /\ Split(objs[1].el, Values(objs[1])) = last[1]
  /\ mem[1] = FlattenSeq([i \in 1..3 |-> Enc(objs[1].el[i].rr, objs[1].en, objs[1].mo, last[1][i])])
  /\ Len(mem[1]) = 5 /\ Len(mem[9]) = 6
(* C04: a slice sees what the tuple holds, and conversely *)
SliceAgrees == ops > 0 => Values(objs[2]) = SubSeq(Values(objs[1]), 2, 5)
(* C03, C04: an operation changes nothing outside its footprint; reading changes nothing *)
Footprint == [][ops > 0 =>
  /\ \A r \in DOMAIN mem : \A x \in DOMAIN mem[r] : mem'[r][x] # mem[r][x] => <<r, x>> \in obs'.fp
  /\ obs'.op \in {"get", "invoke"} => mem' = mem]_vars
(* C03: every assigned value is one the source had before *)
Copies == [][\A o \in {3, 4} : \A from \in 0..3 : Over(o, from) => Values(objs[o])' = Values([objs[o] EXCEPT !.off = from, !.en = Other(@)])]_vars
(* C04: reading back through a view gives the value written through it *)
ReadBack == [][obs'.op = "set" => \E o \in DOMAIN objs : \E i \in DOMAIN objs[o].el :
  LET x == objs[o]  e == x.el[i]  at == ElementOffset(x.el, i) IN
    /\ obs'.fp = Range2(x, at, e.n)
    /\ \E v \in ValuesOf(o, i) : Dec(e.rr, x.en, x.mo, Read(mem'[x.r], x.off + at, e.n)) = v]_vars
=============================================================================
