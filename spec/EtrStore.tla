------------------------------ MODULE EtrStore ------------------------------
(***************************************************************************)
(* Owning storage (BaseStore, Buffer, Indices and the storage inside a     *)
(* vector) as an ideal growable sequence.  A storage is a value            *)
(* [t, v, m, r, c] as in EtrSem; v may be empty.  Storages named q.. hold  *)
(* sizes (they behave like integers).                                      *)
(*                                                                         *)
(* Effect3(st, own, op) is the outcome of one operation; fields as in      *)
(* EtrSem plus grow, for a resize beyond the length: whether the old elements are *)
(* kept or all elements are zero depends on memory the storage happens to  *)
(* own, so both are allowed (but nothing else).                            *)
(***************************************************************************)
EXTENDS EtrSem, FiniteSets

NoGrow == [x |-> "", old |-> <<>>]
SOk(ch)   == [s |-> "ok", ch |-> ch, out |-> NoOut, par |-> NoPar, grow |-> NoGrow]
SErr      == [SOk(NoCh) EXCEPT !.s = "err"]
SUnd      == [SOk(NoCh) EXCEPT !.s = "und"]
SSet(st, x, v) == SOk(x :> [st[x] EXCEPT !.v = v])
SOut(t, v) == [SOk(NoCh) EXCEPT !.out = [t |-> t, v |-> v, m |-> FALSE, r |-> 0, c |-> 0]]

Zeros(n)    == [i \in 1..n |-> FF]
Unknown(n)  == [i \in 1..n |-> UND]
Elem(t, op, k) == Conv(t, <<op[k], op[k + 1]>>)
From(t, base, n) == [i \in 1..n |-> Conv(t, IntE(base + i - 1))]

\* what an operation does to the storages st
Effect2(st, own, op) ==
  LET x == op[2]
      v == st[x].v
      t == st[x].t
  IN
  CASE op[1] = "new"  -> SSet(st, x, <<>>)
    [] op[1] \in {"size", "isize"} ->
         IF op[3] < 1 THEN SErr ELSE SSet(st, x, Zeros(op[3]))
    [] op[1] \in {"copy", "assign"} -> SSet(st, x, st[op[3]].v)
    [] op[1] = "move" ->
         IF x = op[3] THEN SUnd
         ELSE SOk((x :> [st[x] EXCEPT !.v = st[op[3]].v])
                  @@ (op[3] :> [st[op[3]] EXCEPT !.v = <<>>]))
    [] op[1] = "swap" ->
         SOk((x :> [st[x] EXCEPT !.v = st[op[3]].v])
             @@ (op[3] :> [st[op[3]] EXCEPT !.v = v]))
    [] op[1] = "init" -> SSet(st, x, Unknown(op[3]))
    [] op[1] = "resize" ->
         LET n == op[3]
         IN IF n < 1 THEN SErr
            ELSE IF n <= Len(v) THEN SSet(st, x, SubSeq(v, 1, n))
            \* memory of its own which holds no elements: anything
            ELSE IF v = <<>> THEN SSet(st, x, IF own[x] THEN Unknown(n) ELSE Zeros(n))
            ELSE [SSet(st, x, Unknown(n)) EXCEPT !.grow = [x |-> x, old |-> v]]
    [] op[1] = "realloc" ->
         SSet(st, x, [i \in 1..op[3] |-> IF i <= Len(v) THEN v[i] ELSE FF])
    [] op[1] = "push" -> SSet(st, x, Append(v, Elem(t, op, 3)))
    [] op[1] = "fill" -> SSet(st, x, [i \in 1..Len(v) |-> Elem(t, op, 3)])
    \* op[3]: kind of the argument, which holds op[5], op[5]+1, ...
    [] op[1] = "fillv" ->
         IF op[4] # Len(v) THEN SErr ELSE SSet(st, x, From(t, op[5], op[4]))
    [] op[1] = "set" ->
         IF op[3] < 0 \/ op[3] >= Len(v) THEN SErr
         ELSE SSet(st, x, [v EXCEPT ![op[3] + 1] = Elem(t, op, 4)])
    [] op[1] = "get" ->
         IF op[3] < 0 \/ op[3] >= Len(v) THEN SErr ELSE SOut(t, <<v[op[3] + 1]>>)
    [] op[1] = "back" -> IF v = <<>> THEN SUnd ELSE SOut(t, <<v[Len(v)]>>)
    [] op[1] = "iter" -> SOut(t, v)
    \* the storage inside a vector: assignments to the vector
    [] op[1] = "vassign" ->
         IF st[op[3]].v = <<>> THEN SErr ELSE SSet(st, x, st[op[3]].v)
    [] op[1] = "vscalar" -> SSet(st, x, <<Elem(t, op, 3)>>)
    [] op[1] = "vplus" ->
         IF v = <<>> THEN SErr
         ELSE SSet(st, x, [i \in 1..Len(v) |-> Arith("+", v[i], Elem(t, op, 3))])
    [] op[1] = "vcoca" ->                      \* x = coca(x, c)
         SSet(st, x, Append(v, Elem(t, op, 3)))
    [] op[1] = "vsub" ->                       \* x = subset(x, colon(1, k))
         IF v = <<>> THEN SErr
         ELSE IF op[3] > Len(v) THEN SErr ELSE SSet(st, x, SubSeq(v, 1, op[3]))

\* may storage x own memory after op (which was performed)?
OwnAfter(st, own, op) ==
  LET x == op[2]
  IN CASE op[1] = "new" -> [own EXCEPT ![x] = FALSE]
       [] op[1] = "copy" -> [own EXCEPT ![x] = own[op[3]]]
       [] op[1] = "move" -> [own EXCEPT ![x] = own[op[3]], ![op[3]] = FALSE]
       [] op[1] = "swap" -> [own EXCEPT ![x] = own[op[3]], ![op[3]] = own[x]]
       [] op[1] = "assign" -> [own EXCEPT ![x] = own[x] \/ st[op[3]].v # <<>>]
       [] op[1] \in {"fill", "fillv", "set", "get", "back", "iter"} -> own
       [] OTHER -> [own EXCEPT ![x] = TRUE]

\* the fill of nothing by nothing
Effect3(st, own, op) ==
  IF op[1] = "fillv" /\ st[op[2]].v = <<>> /\ op[4] = 0 THEN SUnd ELSE Effect2(st, own, op)
=============================================================================
