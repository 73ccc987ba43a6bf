------------------------------ MODULE UpdTuple ------------------------------
(***************************************************************************)
(* Tuples and tuple views of Unpadded as a state machine over byte         *)
(* memories.                                                               *)
(*                                                                         *)
(*   mem[r]  content of memory region r: an area of the environment, or    *)
(*           the storage of a tuple object                                 *)
(*   objs[o] a tuple or a view: [r |-> region, off |-> offset in it,       *)
(*           en, mo |-> byte order and signed mode, el |-> elements]       *)
(*           where an element is [rr |-> runs, n |-> size in bytes]        *)
(*   obs     what the environment observed of the last operation; fp is    *)
(*           the set of the <<region, position>> it may have touched       *)
(***************************************************************************)
EXTENDS UpdCodec, FiniteSets

CONSTANT Layouts   \* <<[en, mo, t |-> <<types>>]>>

VARIABLES mem, objs, obs
tvars == <<mem, objs, obs>>

Element(t) == LET r == RunsOf(t) IN [rr |-> r, n |-> SizeOfRuns(r)]
Compile(L) == [en |-> L.en, mo |-> L.mo, el |-> TLCEval([i \in DOMAIN L.t |-> TLCEval(Element(L.t[i]))])]
LAY == TLCEval([k \in DOMAIN Layouts |-> TLCEval(Compile(Layouts[k]))])

SizeOfElements(el) == FoldLeft(LAMBDA acc, e : acc + e.n, 0, el)
ElementOffset(el, i) == SizeOfElements(SubSeq(el, 1, i - 1))
RunsOfElements(el) == FlattenSeq([i \in DOMAIN el |-> el[i].rr])

Write(m, at, bs) == [x \in DOMAIN m |-> IF x > at /\ x <= at + Len(bs) THEN bs[x - at] ELSE m[x]]
Read(m, at, n) == SubSeq(m, at + 1, at + n)

PutFn(f, d, x) == (d :> x) @@ f
DropFn(f, S) == [y \in DOMAIN f \ S |-> f[y]]

(* Values of consecutive elements are held concatenated, in canonical form *)
Split(el, v) == [i \in DOMAIN el |-> SubSeq(v, ElementOffset(el, i) + 1, ElementOffset(el, i) + el[i].n)]
Zeros(n) == [i \in 1..n |-> 0]

Content(o) == Read(mem[o.r], o.off, SizeOfElements(o.el))
Values(o) == Dec(RunsOfElements(o.el), o.en, o.mo, Content(o))
Encoded(o, v) == Enc(RunsOfElements(o.el), o.en, o.mo, v)
Range2(o, from, n) == {<<o.r, x>> : x \in (o.off + from + 1)..(o.off + from + n)}
WholeRange(o) == Range2(o, 0, SizeOfElements(o.el))

----------------------------------------------------------------------------
TInit == mem = <<>> /\ objs = <<>> /\ obs = [op |-> "init", fp |-> {}]

NewRegion(r, bs) ==
  /\ mem' = PutFn(mem, r, bs)
  /\ obs' = [op |-> "region", fp |-> {}]
  /\ UNCHANGED objs

(* A tuple made from values; default construction gives zeros *)
NewTuple(o, k, v) ==
  LET new == [r |-> o, off |-> 0, en |-> LAY[k].en, mo |-> LAY[k].mo, el |-> LAY[k].el] IN
  /\ Len(v) = SizeOfElements(new.el)
  /\ mem' = PutFn(mem, o, Encoded(new, v))
  /\ objs' = PutFn(objs, o, new)
  /\ obs' = [op |-> "tuple", fp |-> {}]
NewDefault(o, k) == NewTuple(o, k, Zeros(SizeOfElements(LAY[k].el)))

NewView(o, r, off, k) ==
  /\ r \in DOMAIN mem /\ off + SizeOfElements(LAY[k].el) <= Len(mem[r])
  /\ objs' = PutFn(objs, o, [r |-> r, off |-> off, en |-> LAY[k].en, mo |-> LAY[k].mo, el |-> LAY[k].el])
  /\ obs' = [op |-> "view", fp |-> {}]
  /\ UNCHANGED mem

(* View of the elements i .. i + l - 1 (from 0) of a tuple *)
Slice(o, p, i, l) ==
  /\ p \in DOMAIN objs /\ i + l <= Len(objs[p].el)
  /\ objs' = PutFn(objs, o, [objs[p] EXCEPT !.off = @ + ElementOffset(objs[p].el, i + 1),
                                            !.el = SubSeq(@, i + 1, i + l)])
  /\ obs' = [op |-> "slice", fp |-> {}]
  /\ UNCHANGED mem

(* o becomes a tuple of its own with the content of p *)
CopyTuple(o, p) ==
  /\ p \in DOMAIN objs
  /\ mem' = PutFn(mem, o, Content(objs[p]))
  /\ objs' = PutFn(objs, o, [objs[p] EXCEPT !.r = o, !.off = 0])
  /\ obs' = [op |-> "copy", fp |-> {}]

SetElement(o, i, v) ==
  /\ o \in DOMAIN objs
  /\ LET x == objs[o]  e == x.el[i + 1]  at == ElementOffset(x.el, i + 1) IN
       /\ Len(v) = e.n
       /\ mem' = [mem EXCEPT ![x.r] = Write(@, x.off + at, Enc(e.rr, x.en, x.mo, v))]
       /\ obs' = [op |-> "set", fp |-> Range2(x, at, e.n)]
  /\ UNCHANGED objs

GetElement(o, i) ==
  /\ o \in DOMAIN objs
  /\ LET x == objs[o]  e == x.el[i + 1]  at == ElementOffset(x.el, i + 1) IN
       obs' = [op |-> "get", v |-> Dec(e.rr, x.en, x.mo, Read(mem[x.r], x.off + at, e.n)), fp |-> Range2(x, at, e.n)]
  /\ UNCHANGED <<mem, objs>>

(* Assignment of the values v of another tuple or view *)
Assign(o, v) ==
  /\ o \in DOMAIN objs /\ Len(v) = SizeOfElements(objs[o].el)
  /\ mem' = [mem EXCEPT ![objs[o].r] = Write(@, objs[o].off, Encoded(objs[o], v))]
  /\ obs' = [op |-> "assign", fp |-> WholeRange(objs[o])]
  /\ UNCHANGED objs

(* Assignment of a view, with the same elements in the other byte order, of bytes of the same sequence: what they hold before *)
Other(en) == IF en = "BIG" THEN "LITTLE" ELSE "BIG"
Over(o, from) ==
  /\ o \in DOMAIN objs
  /\ LET x == objs[o]  src == [x EXCEPT !.off = from, !.en = Other(@)] IN
       /\ from + SizeOfElements(x.el) <= Len(mem[x.r])
       /\ mem' = [mem EXCEPT ![x.r] = Write(@, x.off, Encoded(x, Values(src)))]
       /\ obs' = [op |-> "assign", fp |-> WholeRange(x) \cup WholeRange(src)]
  /\ UNCHANGED objs

(* A functor receives every element, once, in order *)
Invoke(o) ==
  /\ o \in DOMAIN objs
  /\ obs' = [op |-> "invoke", v |-> Split(objs[o].el, Values(objs[o])), calls |-> 1, fp |-> WholeRange(objs[o])]
  /\ UNCHANGED <<mem, objs>>

(* The environment writes directly into a sequence *)
Poke(r, at, x) ==
  /\ r \in DOMAIN mem /\ at < Len(mem[r])
  /\ mem' = [mem EXCEPT ![r][at + 1] = x]
  /\ obs' = [op |-> "poke", fp |-> {<<r, at + 1>>}]
  /\ UNCHANGED objs

(* Advertised size, and the bytes between begin() and end() *)
Inspect(o) ==
  /\ o \in DOMAIN objs
  /\ obs' = [op |-> "size", n |-> SizeOfElements(objs[o].el), c |-> Len(objs[o].el), b |-> Content(objs[o]),
             fp |-> WholeRange(objs[o])]
  /\ UNCHANGED <<mem, objs>>
=============================================================================
