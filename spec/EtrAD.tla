------------------------------- MODULE EtrAD --------------------------------
(***************************************************************************)
(* Tracked variables (AllVars / VarPointer): every variable x carries, next *)
(* to its value, the derivative Der(x) of each element with respect to the *)
(* independent variable.  An expression is evaluated with dual numbers:    *)
(* value and derivative of every operand are recycled together, so the     *)
(* derivative of an element is by definition that of its value.            *)
(*                                                                         *)
(* Expressions: <<"var", x>>, <<"const", k, numbers>>, <<"scal", k, n, d>>, *)
(* <<"bin", op, l, r>>, <<"sin", e>>, <<"colon", k, from, to>>,             *)
(* <<"numeric", k, count>>.  Statements: <<"assign", x, e>>, and what a     *)
(* user can ask: <<"report", e>>, <<"test", e>>, <<"print", x>>,            *)
(* <<"query", x>>, <<"data", x>>.                                          *)
(***************************************************************************)
EXTENDS EtrSem, FiniteSets

ZERO == FF
ONE  == TT

\* value with its derivative
Dual(t, v, d, m, r, c) == [s |-> "ok", t |-> t, v |-> v, d |-> d, m |-> m, r |-> r, c |-> c]

\* the derivative of one element of an operation
DBin(op, l, ld, r, rd) ==
  CASE op = "+" -> Arith("+", ld, rd)
    [] op = "-" -> Arith("-", ld, rd)
    [] op = "*" -> Arith("+", Arith("*", ld, r), Arith("*", rd, l))
    [] op = "/" -> Arith("/", Arith("-", Arith("*", ld, r), Arith("*", l, rd)),
                         Arith("*", r, r))
    [] OTHER -> ZERO

DEval2(op, x, y) ==
  IF Bad(x) \/ Bad(y) THEN Worst(x, y)
  ELSE IF ~Conf(x, y) THEN Und
  ELSE IF op \in ArithOps /\ x.t = "b" /\ y.t = "b" THEN Und
  ELSE LET n == Max(Len(x.v), Len(y.v))
           v == TLCEval([i \in 1..n |->
                  IF op \in ArithOps THEN Arith(op, Cyc(x.v, i), Cyc(y.v, i))
                                     ELSE Compare(op, Cyc(x.v, i), Cyc(y.v, i))])
           d == TLCEval([i \in 1..n |->
                  DBin(op, Cyc(x.v, i), Cyc(x.d, i), Cyc(y.v, i), Cyc(y.d, i))])
       IN Dual(IF op \in ArithOps THEN "d" ELSE "b", v, d,
               x.m \/ y.m, Max(x.r, y.r), Max(x.c, y.c))

Der(x) == "D" \o x

RECURSIVE DEval(_, _)
DEval(st, e) ==
  CASE e[1] = "var" -> LET w == st[e[2]]
                       IN Dual("d", w.v, st[Der(e[2])].v, w.m, w.r, w.c)
    [] e[1] = "const" -> Dual("d", e[3], [i \in 1..Len(e[3]) |-> ZERO], FALSE, 0, 0)
    [] e[1] = "scal" -> Dual("d", <<<<e[3], e[4]>>>>, <<ZERO>>, FALSE, 0, 0)
    [] e[1] = "colon" ->
         LET x == EvalColon(MkS("d", e[3]), MkS("d", e[4]))
         IN IF Bad(x) THEN x
            ELSE Dual("d", x.v, [i \in 1..Len(x.v) |-> ZERO], FALSE, 0, 0)
    [] e[1] = "numeric" ->
         LET n == CountOf(MkS("d", e[3]))
         IN IF Bad(n) THEN n
            ELSE Dual("d", [i \in 1..n.n |-> ZERO], [i \in 1..n.n |-> ZERO], FALSE, 0, 0)
    [] e[1] = "bin" -> DEval2(e[2], DEval(st, e[3]), DEval(st, e[4]))
    [] e[1] = "sin" ->
         LET x == DEval(st, e[2])
         IN IF Bad(x) THEN x
            ELSE Dual("d", TLCEval([i \in 1..Len(x.v) |-> MathFn("sin", x.v[i])]),
                      TLCEval([i \in 1..Len(x.v) |->
                         Arith("*", MathFn("cos", x.v[i]), x.d[i])]), x.m, x.r, x.c)

Tracked(st) == {x \in DOMAIN st : Der(x) \in DOMAIN st}

AOk(ch) == [s |-> "ok", ch |-> ch, out |-> NoOut, par |-> NoPar]
AErr    == [AOk(NoCh) EXCEPT !.s = "err"]
AUnd    == [AOk(NoCh) EXCEPT !.s = "und"]

Val(v, m, r, c) == [t |-> "d", v |-> v, m |-> m, r |-> r, c |-> c]

\* cap[x]: the length of the memory behind x, 0 if x owns its memory;
\* iv: the independent variable
Constants == {"const", "scal", "colon", "numeric"}

AAssign(st, iv, cap, s) ==
  LET x == s[2]
      e == s[3]
      w == DEval(st, e)
      n == Len(w.v)
  IN IF Bad(w) THEN [AOk(NoCh) EXCEPT !.s = w.s]
     ELSE IF cap[x] > 0 /\ n > cap[x] THEN AErr
     ELSE AOk((x :> Val(w.v, w.m, w.r, w.c)) @@
              (Der(x) :> Val(IF e[1] \notin Constants THEN w.d
                             ELSE [i \in 1..n |-> IF x = iv THEN ONE ELSE ZERO],
                             FALSE, 0, 0)))

Num(b) == IF b THEN ONE ELSE ZERO
AOut(w) == [AOk(NoCh) EXCEPT !.out = w]

\* printing rounds: the elements are terms, compared with a tolerance
Printed(v) == TLCEval([i \in 1..Len(v) |->
                 IF v[i][2] > 0 \/ v[i][2] < -1 THEN Term("+", <<v[i], ZERO>>) ELSE v[i]])

\* what a question reports; it changes nothing
AReport(st, s) ==
  CASE s[1] = "report" ->
         LET w == DEval(st, s[2])
         IN IF Bad(w) THEN [AOk(NoCh) EXCEPT !.s = w.s] ELSE AOut(Val(w.v, w.m, w.r, w.c))
    [] s[1] = "test" ->
         LET w == DEval(st, s[2])
         IN IF Bad(w) THEN [AOk(NoCh) EXCEPT !.s = w.s] ELSE AOut(Val(<<w.v[1]>>, FALSE, 0, 0))
    \* (an operation left open can have left elements and shape apart)
    [] s[1] = "print" /\ st[s[2]].m /\ st[s[2]].r * st[s[2]].c # Len(st[s[2]].v) -> AUnd
    [] s[1] = "print" -> AOut([st[s[2]] EXCEPT !.v = Printed(@)])
    [] s[1] = "data" -> AOut(Val(st[s[2]].v, FALSE, 0, 0))
    [] s[1] = "query" ->
         LET w == st[s[2]]
         IN AOut(Val(<<IntE(Len(w.v)), Num(w.m), IntE(IF w.m THEN w.r ELSE 0),
                       IntE(IF w.m THEN w.c ELSE 0)>>, FALSE, 0, 0))

AEffect(st, iv, cap, s) ==
  IF s[1] = "assign" THEN AAssign(st, iv, cap, s) ELSE AReport(st, s)

\* derivatives at the beginning: the variables are their own constants
Seed(st, iv) == [y \in (DOMAIN st) \cup {Der(x) : x \in DOMAIN st} |->
                   IF y \in DOMAIN st THEN st[y]
                   ELSE LET x == CHOOSE x \in DOMAIN st : Der(x) = y
                        IN Val([i \in 1..Len(st[x].v) |-> IF x = iv THEN ONE ELSE ZERO],
                               FALSE, 0, 0)]

-----------------------------------------------------------------------------
(* An independent definition of the derivative for polynomials of degree   *)
(* at most two: the symmetric difference along the derivatives is exact.   *)
RECURSIVE Degree(_)
Degree(e) == CASE e[1] = "var" -> 1
               [] e[1] \in Constants -> 0
               [] e[1] = "sin" -> 9
               [] e[1] = "bin" ->
                    LET a == Degree(e[3])
                        b == Degree(e[4])
                    IN CASE e[2] \in {"+", "-"} -> Max(a, b)
                         [] e[2] = "*" -> a + b
                         [] e[2] = "/" -> IF b = 0 THEN a ELSE 9
                         [] OTHER -> 9

Shift(st, sg) == [y \in DOMAIN st |->
   IF y \in Tracked(st)
   THEN [st[y] EXCEPT !.v = [i \in 1..Len(st[y].v) |->
           Arith(sg, st[y].v[i], st[Der(y)].v[i])]]
   ELSE st[y]]

DirectionOK(st, e) ==
  Degree(e) > 2 \/
  LET w == DEval(st, e)
      p == DEval(Shift(st, "+"), e)
      q == DEval(Shift(st, "-"), e)
  IN Bad(w) \/ \A i \in 1..Len(w.v) :
       LET z == Arith("/", Arith("-", p.v[i], q.v[i]), IntE(2))
       IN Exact(z) /\ Exact(w.d[i]) => z = w.d[i]
=============================================================================
