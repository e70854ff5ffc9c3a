------------------------------- MODULE Blocks -------------------------------
(* Enumeration layouts of BlockIterator and what their packages have to be. *)
(*                                                                          *)
(* A layout is a record  [len, pkg, c]  with one coordinate description     *)
(* per position:                                                            *)
(*   [t |-> "b", lo, hi]      a range lo..hi-1, split into packages         *)
(*   [t |-> "s", v]           a fixed set, listed in v                      *)
(*   [t |-> "d", on, m]       a set depending on coordinate on: m lists     *)
(*        <<key, values>>, the key being the index (from 0) into the set of *)
(*        coordinate on, or its value if that coordinate is a range         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Range_(s) == {s[i] : i \in 1..Len(s)}

IndexOf(v, x) == (CHOOSE i \in 1..Len(v) : v[i] = x) - 1

DepValues(L, i, x) ==
  \* admissible values of the dependent coordinate i in the tuple x
  LET d == L.c[i]
      k == IF L.c[d.on + 1].t = "s" THEN IndexOf(L.c[d.on + 1].v, x[d.on + 1]) ELSE x[d.on + 1]
      e == {j \in 1..Len(d.m) : d.m[j][1] = k}
  IN  UNION {Range_(d.m[j][2]) : j \in e}

Free(L, i) == CASE L.c[i].t = "b" -> L.c[i].lo..(L.c[i].hi - 1)
                [] L.c[i].t = "s" -> Range_(L.c[i].v)
                [] OTHER -> UNION {Range_(L.c[i].m[j][2]) : j \in 1..Len(L.c[i].m)}

RECURSIVE Tuples(_, _)
Tuples(L, n) == IF n = 0 THEN {<<>>}
                ELSE {Append(x, v) : x \in Tuples(L, n-1), v \in Free(L, n)}

\* all tuples of the layout (the abstract object that is enumerated)
Admissible(L) ==
  {x \in Tuples(L, L.len) : \A i \in 1..L.len : L.c[i].t = "d" => x[i] \in DepValues(L, i, x)}

\* boxes: sequences of <<lower, upper>> bounds, upper excluded
RECURSIVE BoxTuples(_, _)
BoxTuples(b, n) == IF n = 0 THEN {<<>>}
                   ELSE {Append(x, v) : x \in BoxTuples(b, n-1), v \in b[n][1]..(b[n][2]-1)}
Box(b) == BoxTuples(b, Len(b))

BoxOK(L, adm, b) ==
  /\ Len(b) = L.len
  /\ LET s == Box(b) IN s # {} /\ s \subseteq adm /\ Cardinality(s) <= L.pkg

\* a list of boxes is a partition of the admissible tuples into packages
Partition(L, boxes) ==
  LET adm == Admissible(L)
      size(b) == Cardinality(Box(b))
      total == FoldLeft(LAMBDA acc, b : acc + size(b), 0, boxes)
  IN  /\ \A i \in 1..Len(boxes) : BoxOK(L, adm, boxes[i])
      /\ total = Cardinality(adm)
      /\ UNION {Box(boxes[i]) : i \in 1..Len(boxes)} = adm

-----------------------------------------------------------------------------
(* The odometer of the implementation: dependent sets step first, then      *)
(* sets, then ranges (the longest first), ranges in steps that use up the   *)
(* package size.                                                            *)

CONSTANT Layouts
VARIABLES L, pos, ended, seen

Idx(l, t) == {i \in 1..l.len : l.c[i].t = t}
Size(l, i) == l.c[i].hi - l.c[i].lo

\* ranges in stepping order: by size, larger first; among equals larger index first
RangeOrder(l) == SortSeq(SetToSeq(Idx(l, "b")),
                   LAMBDA i, j : Size(l, i) > Size(l, j) \/ (Size(l, i) = Size(l, j) /\ i > j))

RECURSIVE Steps(_, _, _)
Steps(l, order, p) ==
  \* step sizes in stepping order
  IF order = <<>> THEN <<>>
  ELSE LET s == Size(l, order[1])  st == IF p >= s THEN s ELSE p
       IN  <<st>> \o Steps(l, Tail(order), p \div st)

StepOf(l, i) == LET o == RangeOrder(l)  s == Steps(l, o, l.pkg)
                IN  s[CHOOSE k \in 1..Len(o) : o[k] = i]

\* wheels in stepping order with the positions they run through
Wheels(l) == SortSeq(SetToSeq(Idx(l, "d")), <) \o SortSeq(SetToSeq(Idx(l, "s")), <) \o RangeOrder(l)

First(l, i) == IF l.c[i].t = "b" THEN l.c[i].lo ELSE 0
DepLen(l, p, i) == LET d == l.c[i]
                       e == CHOOSE j \in 1..Len(d.m) : d.m[j][1] = p[d.on + 1]
                   IN  Len(d.m[e][2])

StepWheel(l, p, i) == p[i] + (IF l.c[i].t = "b" THEN StepOf(l, i) ELSE 1)
Overflow(l, p, i) ==
  CASE l.c[i].t = "b" -> StepWheel(l, p, i) >= l.c[i].hi
    [] l.c[i].t = "s" -> StepWheel(l, p, i) >= Len(l.c[i].v)
    [] OTHER -> StepWheel(l, p, i) >= DepLen(l, p, i)

RECURSIVE Carry(_, _, _)
Carry(l, p, ws) ==
  \* next position, or <<>> at the end
  IF ws = <<>> THEN <<>>
  ELSE IF Overflow(l, p, ws[1])
       THEN Carry(l, [p EXCEPT ![ws[1]] = First(l, ws[1])], Tail(ws))
       ELSE [p EXCEPT ![ws[1]] = StepWheel(l, p, ws[1])]

ValueAt(l, p, i) ==
  CASE l.c[i].t = "b" -> p[i]
    [] l.c[i].t = "s" -> l.c[i].v[p[i] + 1]
    [] OTHER -> LET d == l.c[i]  e == CHOOSE j \in 1..Len(d.m) : d.m[j][1] = p[d.on + 1]
                IN  d.m[e][2][p[i] + 1]

PackageAt(l, p) ==
  [i \in 1..l.len |->
     IF l.c[i].t = "b"
     THEN << p[i], LET u == p[i] + StepOf(l, i) IN IF u > l.c[i].hi THEN l.c[i].hi ELSE u >>
     ELSE << ValueAt(l, p, i), ValueAt(l, p, i) + 1 >>]

vars == <<L, pos, ended, seen>>

Init == /\ L \in Layouts
        /\ pos = [i \in 1..L.len |-> First(L, i)]
        /\ ended = FALSE
        /\ seen = {}

Step == /\ ~ended
        /\ seen' = seen \cup Box(PackageAt(L, pos))
        /\ LET n == Carry(L, pos, Wheels(L))
           IN  IF n = <<>> THEN ended' = TRUE /\ pos' = pos
               ELSE ended' = FALSE /\ pos' = n
        /\ UNCHANGED L

Stay == ended /\ UNCHANGED vars

Next == Step \/ Stay
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

\* each package is admissible, new and within the package size
PackageOK == ~ended => /\ BoxOK(L, Admissible(L), PackageAt(L, pos))
                       /\ Box(PackageAt(L, pos)) \cap seen = {}
\* at the end everything has been seen
CoverOK == ended => seen = Admissible(L)
Ends == <>[]ended

-----------------------------------------------------------------------------
(* A family of small layouts, exhaustive in the shapes of up to three       *)
(* coordinates; the same layouts are run through the implementation.        *)
Coord(len, i) ==
    {[t |-> "b", lo |-> i - 1, hi |-> i - 1 + s] : s \in {1, 2, 3, 5}}
    \cup {[t |-> "s", v |-> v] : v \in {<<4>>, <<9, 7>>, <<3, 0, 8>>}}
DepCoord(len, on, nkeys, kfirst) ==
    {[t |-> "d", on |-> on - 1, m |-> [k \in 1..nkeys |-> <<kfirst + k - 1, vs[((k - 1) % Len(vs)) + 1]>>]] :
        vs \in { << <<5>>, <<6, 2>> >>, << <<1, 0, 7>>, <<4>>, <<3, 1>> >> }}

RECURSIVE CoordSeqs(_, _)
CoordSeqs(len, n) == IF n = 0 THEN {<<>>} ELSE {Append(x, y) : x \in CoordSeqs(len, n-1), y \in Coord(len, n)}

Pkgs == {1, 2, 3, 4, 6, 7, 40}
Plain(n) == {[len |-> n, pkg |-> p, c |-> c] : p \in Pkgs, c \in CoordSeqs(n, n)}
\* replace one coordinate by a set depending on another one
WithDep(n) ==
  UNION { UNION { UNION {
     IF l.c[on].t = "s"
     THEN {[l EXCEPT !.c[i] = d] : d \in DepCoord(n, on, Len(l.c[on].v), 0)}
     ELSE IF l.pkg = 1
     THEN {[l EXCEPT !.c[i] = d] : d \in DepCoord(n, on, l.c[on].hi - l.c[on].lo, l.c[on].lo)}
     ELSE {}
     : l \in {k \in Plain(n) : k.c[i].t = "s" /\ Len(k.c[i].v) = 1} } : on \in (1..n) \ {i} } : i \in 1..n }

SmallLayouts == Plain(1) \cup Plain(2) \cup WithDep(2) \cup Plain(3) \cup WithDep(3)
TinyLayouts == Plain(1) \cup Plain(2) \cup WithDep(2)
=============================================================================
