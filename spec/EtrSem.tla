------------------------------- MODULE EtrSem -------------------------------
(***************************************************************************)
(* Denotational core of the ETR specification: what every expression of    *)
(* the library means (Eval) and which state every statement leads to       *)
(* (Outcome).  Nothing in here follows the implementation's structure      *)
(* (templates, lazy operands, temporaries, capacities): a value is a       *)
(* sequence of numbers with an element type and possibly a matrix shape.   *)
(*                                                                         *)
(* Elements                                                                *)
(*   <<n, d>>, d > 0     the rational n/d in lowest terms.  If d is a      *)
(*                       power of two the double is exactly n/d, otherwise *)
(*                       it is the double nearest to n/d                   *)
(*   <<0,0>> <<1,0>> <<-1,0>>   NaN, Inf, -Inf                             *)
(*   <<0,-1>>            unspecified: the specification says nothing       *)
(*   <<k,-2>>            an observed number that is no small rational      *)
(*   <<0,-3,op,args,n>>  the primitive real operation op applied to args;  *)
(*                       uninterpreted here, the harness discharges it     *)
(*                       numerically                                       *)
(*   <<0,-4>>            no element: an access which has to be rejected    *)
(*                                                                         *)
(* Expressions, index expressions and statements are syntax trees (nested  *)
(* tuples whose first component names the construct), shared with the      *)
(* generator of the C++ programs.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

LIM  == 20000
DLIM == 16384

NaN  == <<0, 0>>
UND  == <<0, -1>>
ERR  == <<0, -4>>
TT   == <<1, 1>>
FF   == <<0, 1>>
IntE(n) == <<n, 1>>

IsNum(e)   == e[2] > 0
IsErr(e)   == e[2] = -4
IsUnd(e)   == e[2] = -1
Dyadic(d)  == d = 1 \/ d = 2 \/ d = 4 \/ d = 8 \/ d = 16 \/ d = 32 \/ d = 64
              \/ d = 128 \/ d = 256 \/ d = 512 \/ d = 1024 \/ d = 2048
              \/ d = 4096 \/ d = 8192 \/ d = 16384
Exact(e)   == e[2] > 0 /\ Dyadic(e[2])
Abs(n)     == IF n < 0 THEN -n ELSE n
Max(a, b)  == IF a > b THEN a ELSE b
Min(a, b)  == IF a < b THEN a ELSE b
\* a term carries its size; about numbers that took too many steps to compute
\* nothing is said
Size(e) == IF e[2] = -3 THEN e[5] ELSE 1
Term(op, args) ==
  LET n == IF Len(args) = 1 THEN 1 + Size(args[1]) ELSE 1 + Size(args[1]) + Size(args[2])
  IN IF n > 400 THEN UND ELSE <<0, -3, op, args, n>>

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

\* n/d in lowest terms; numbers that get too large become terms
Norm(op, a, b, n0, d0) ==
  LET s == IF d0 < 0 THEN -1 ELSE 1
      n == s * n0
      d == s * d0
      g == IF d = 1 THEN 1 ELSE Gcd(Abs(n), d)
      q == <<n \div g, d \div g>>
  IN IF Abs(q[1]) > LIM \/ q[2] > DLIM THEN Term(op, <<a, b>>) ELSE q

RECURSIVE IPow(_, _)                 \* -1: too large
IPow(x, k) == IF k = 0 THEN 1
              ELSE LET r == IPow(x, k - 1)
                   IN IF r = LIM + 1 \/ Abs(r * x) > LIM THEN LIM + 1 ELSE r * x

Trunc(e) == IF e[1] >= 0 THEN e[1] \div e[2] ELSE -((-e[1]) \div e[2])
\* a number as a position: NaN and infinity are none
IsPos(e) == e[2] >= 0
Pos(e)   == IF e[2] = 0 THEN 0 ELSE Trunc(e)

(***************************************************************************)
(* Elementary operations.                                                  *)
(***************************************************************************)
Pow(a, b) ==
  IF ~IsNum(a) \/ ~IsNum(b) THEN Term("^", <<a, b>>)
  ELSE IF a[1] = 0 /\ b[1] < 0 THEN UND
  ELSE IF a[1] < 0 /\ b[2] # 1 THEN NaN
  ELSE IF ~Exact(a) \/ b[2] # 1 \/ Abs(b[1]) > 8 THEN Term("^", <<a, b>>)
  ELSE LET n == IPow(a[1], Abs(b[1]))
           d == IPow(a[2], Abs(b[1]))
       IN IF n = LIM + 1 \/ d = LIM + 1 \/ d > DLIM THEN Term("^", <<a, b>>)
          ELSE IF b[1] >= 0 THEN <<n, d>>
          ELSE IF Dyadic(Abs(n)) THEN (IF n < 0 THEN <<-d, -n>> ELSE <<d, n>>)
          ELSE Term("^", <<a, b>>)

Arith(op, a, b) ==
  IF IsErr(a) \/ IsErr(b) THEN ERR
  ELSE IF IsUnd(a) \/ IsUnd(b) THEN UND
  ELSE IF op = "/" /\ b = FF THEN UND
  ELSE IF op = "^" THEN Pow(a, b)
  ELSE IF ~Exact(a) \/ ~Exact(b) THEN Term(op, <<a, b>>)
  ELSE CASE op = "+" -> Norm(op, a, b, a[1] * b[2] + b[1] * a[2], a[2] * b[2])
         [] op = "-" -> Norm(op, a, b, a[1] * b[2] - b[1] * a[2], a[2] * b[2])
         [] op = "*" -> Norm(op, a, b, a[1] * b[1], a[2] * b[2])
         [] op = "/" -> Norm(op, a, b, a[1] * b[2], a[2] * b[1])

\* sign of a - b for two numbers
Diff(a, b) == a[1] * b[2] - b[1] * a[2]
\* -1, 0, 1: |a - b| below, equal to, above 1/1000
Tol(a, b) ==
  LET df == Abs(Diff(a, b))
      dd == a[2] * b[2]
  IN IF df > 400000 THEN 1
     ELSE IF 1000 * df < dd THEN -1
     ELSE IF 1000 * df = dd THEN 0 ELSE 1

B(c) == IF c THEN TT ELSE FF

Compare(op, a, b) ==
  IF IsErr(a) \/ IsErr(b) THEN ERR
  ELSE IF IsUnd(a) \/ IsUnd(b) \/ a[2] = 0 \/ b[2] = 0 THEN UND
  ELSE IF ~IsNum(a) \/ ~IsNum(b) THEN Term(op, <<a, b>>)
  ELSE CASE op = "==" -> (IF Tol(a, b) = 0 THEN UND ELSE B(Tol(a, b) = -1))
         [] op = "!=" -> (IF Tol(a, b) = 0 THEN UND ELSE B(Tol(a, b) = 1))
         [] op = "<"  -> B(Diff(a, b) < 0)
         [] op = "<=" -> B(Diff(a, b) <= 0)
         [] op = ">"  -> B(Diff(a, b) > 0)
         [] op = ">=" -> B(Diff(a, b) >= 0)

ArithOps == {"+", "-", "*", "/", "^"}

Neg(a) == IF IsErr(a) \/ IsUnd(a) THEN a
          ELSE IF a[2] >= 0 THEN <<-a[1], a[2]>> ELSE Term("neg", <<a>>)

MathFn(f, a) == IF IsErr(a) \/ IsUnd(a) THEN a ELSE Term(f, <<a>>)

\* conversion of an element to the element type of a variable
Conv(t, e) ==
  IF t = "d" \/ IsErr(e) \/ IsUnd(e) THEN e
  ELSE IF t = "i"
       THEN (IF IsNum(e) THEN IntE(Trunc(e))
             ELSE IF e[2] = 0 THEN UND ELSE Term("int", <<e>>))
       ELSE (IF IsNum(e) THEN B(e[1] # 0)
             ELSE IF e[2] = 0 THEN TT ELSE Term("bool", <<e>>))

ConvSeq(t, v) == IF t = "d" THEN v
                 ELSE TLCEval([i \in 1..Len(v) |-> Conv(t, v[i])])

(***************************************************************************)
(* Values.  s: "ok", "err" (rejected), "und" (unspecified); k: "s" scalar, *)
(* "v" vector; m, r, c: matrix shape.                                      *)
(***************************************************************************)
Err  == [s |-> "err"]
Und  == [s |-> "und"]
Mk(t, k, v, m, r, c) ==
  [s |-> "ok", t |-> t, k |-> k, v |-> v, m |-> m, r |-> r, c |-> c]
MkV(t, v) == Mk(t, "v", v, FALSE, 0, 0)
MkS(t, e) == Mk(t, "s", <<e>>, FALSE, 0, 0)
Ok(x)  == x.s = "ok"
Bad(x) == x.s # "ok"
\* the status of a construct with two parts
Worst(x, y) == IF x.s = "und" \/ y.s = "und" THEN Und ELSE Err
HasErr(v) == \E i \in 1..Len(v) : IsErr(v[i])
HasOdd(v) == \E i \in 1..Len(v) : v[i][2] <= 0       \* not all plain numbers
\* a value whose elements are all needed
Force(x) == IF Bad(x) THEN x ELSE IF HasErr(x.v) THEN Err ELSE x

Cyc(v, i) == v[((i - 1) % Len(v)) + 1]

\* the common element type
Common(t1, t2) == IF t1 = "d" \/ t2 = "d" THEN "d"
                  ELSE IF t1 = "i" \/ t2 = "i" THEN "i" ELSE "b"

\* shape of an elementwise result: TRUE iff the operands are conformable
Conf(x, y) ==
  /\ (x.m /\ y.m) => (x.r = y.r /\ x.c = y.c)
  /\ (x.m /\ ~y.m) => Len(y.v) <= Len(x.v)
  /\ (y.m /\ ~x.m) => Len(x.v) <= Len(y.v)

EvalBin(op, x, y) ==
  IF Bad(x) \/ Bad(y) THEN Worst(x, y)
  ELSE IF ~Conf(x, y) THEN Und
  \* arithmetic among logical values only is outside the specification
  ELSE IF op \in ArithOps /\ x.t = "b" /\ y.t = "b" THEN Und
  ELSE LET n  == Max(Len(x.v), Len(y.v))
           ar == op \in ArithOps
           \* whole numbers which may not fit an int are outside
           over(e) == e[2] = -3 /\ x.t # "d" /\ y.t # "d" /\ op \notin {"/", "^"}
                      /\ \E j \in 1..2 : ~IsNum(e[4][j])
           v  == TLCEval([i \in 1..n |->
                   IF ar THEN LET e == Arith(op, Cyc(x.v, i), Cyc(y.v, i))
                              IN IF over(e) THEN UND ELSE e
                         ELSE Compare(op, Cyc(x.v, i), Cyc(y.v, i))])
           t  == IF ~ar THEN "b" ELSE IF op = "/" \/ op = "^" THEN "d"
                 ELSE Common(x.t, y.t)
           k  == IF x.k = "s" /\ y.k = "s" THEN "s" ELSE "v"
       IN Mk(t, k, v, x.m \/ y.m, Max(x.r, y.r), Max(x.c, y.c))

EvalUn(f, x) ==
  IF Bad(x) THEN x
  ELSE IF f = "-" /\ x.t = "b" THEN Und
  ELSE [x EXCEPT !.t = IF f = "-" THEN x.t ELSE "d",
                 !.v = TLCEval([i \in 1..Len(x.v) |->
                         IF f = "-" THEN Neg(x.v[i]) ELSE MathFn(f, x.v[i])])]

(***************************************************************************)
(* Selections.  Sel(I, n): the positions which index value I addresses     *)
(* along a dimension of extent n, in order; they need not be valid.        *)
(***************************************************************************)
RECURSIVE TrueAt(_, _, _)
TrueAt(mask, i, n) ==
  IF i > n THEN <<>>
  ELSE IF Cyc(mask, i) = FF THEN TrueAt(mask, i + 1, n)
  ELSE <<i>> \o TrueAt(mask, i + 1, n)

Sel(I, n) ==
  IF Bad(I) THEN I
  ELSE IF HasErr(I.v)
       \* elements of a mask beyond the extent need not be looked at
       THEN IF I.t = "b" /\ \A i \in 1..Min(n, Len(I.v)) : ~IsErr(I.v[i])
            THEN Und ELSE Err
  ELSE IF \E i \in 1..Len(I.v) : ~IsPos(I.v[i]) THEN Und
  ELSE IF I.t = "b"
       THEN IF I.k = "s"
            THEN IF I.v[1] = TT
                 THEN [s |-> "ok", p |-> [i \in 1..n |-> i], k |-> "all"]
                 ELSE Err
            ELSE LET p == TrueAt(I.v, 1, n)
                 IN IF p = <<>> THEN Err
                    ELSE [s |-> "ok", p |-> p, k |-> "mask"]
       ELSE [s |-> "ok", p |-> TLCEval([j \in 1..Len(I.v) |-> Pos(I.v[j])]),
             k |-> IF I.k = "s" THEN "one" ELSE "vec"]

In(p, n) == p >= 1 /\ p <= n

\* selecting: elements at positions p of v; invalid positions give ERR
Pick(v, p) == TLCEval([j \in 1..Len(p) |->
                 IF In(p[j], Len(v)) THEN v[p[j]] ELSE ERR])

\* a selection which skips an element that must be rejected says nothing
Lazy(x, r) == IF HasErr(x.v) /\ ~HasErr(r.v) THEN Und ELSE r

EvalSub(x, I) ==
  IF Bad(x) THEN x
  ELSE LET q == Sel(I, Len(x.v))
       IN IF Bad(q) THEN q ELSE Lazy(x, MkV(x.t, Pick(x.v, q.p)))

\* positions in the column-major data of the cells rows x columns; 0: invalid
Cells(nr, nc, p, q) ==
  TLCEval([j \in 1..(Len(p) * Len(q)) |->
     LET rr == p[((j - 1) % Len(p)) + 1]
         cc == q[((j - 1) \div Len(p)) + 1]
     IN IF In(rr, nr) /\ In(cc, nc) THEN (cc - 1) * nr + rr ELSE 0])

Sel2(x, I, J) ==
  IF Bad(x) THEN x
  ELSE IF Bad(I) \/ Bad(J) THEN Worst(I, J)
  ELSE IF ~x.m THEN Err
  ELSE IF (I.t = "b" /\ Len(I.v) > x.r) \/ (J.t = "b" /\ Len(J.v) > x.c) THEN Und
  ELSE LET p == Sel(I, x.r)
           q == Sel(J, x.c)
       IN IF Bad(p) \/ Bad(q) THEN Worst(p, q)
          ELSE [s |-> "ok", p |-> Cells(x.r, x.c, p.p, q.p),
                mat |-> p.k # "one" /\ q.k # "one",
                nr |-> Len(p.p), nc |-> Len(q.p)]

EvalSub2(x, I, J) ==
  LET q == Sel2(x, I, J)
  IN IF Bad(q) THEN q
     ELSE LET v == Pick(x.v, q.p)
          IN Lazy(x, IF q.mat THEN Mk(x.t, "v", v, TRUE, q.nr, q.nc)
                     ELSE MkV(x.t, v))

(***************************************************************************)
(* Constructors and queries.                                               *)
(***************************************************************************)
\* a count or size given as (the first element of) a value; 0: rejected
CountOf(x) ==
  IF Bad(x) THEN x
  ELSE IF IsErr(x.v[1]) THEN Err
  ELSE IF ~IsNum(x.v[1]) THEN Und
  ELSE LET n == Trunc(x.v[1])
       IN IF n < 1 THEN Err ELSE [s |-> "ok", n |-> n]

EvalColon(a, b) ==
  IF Bad(a) \/ Bad(b) THEN Worst(a, b)
  ELSE LET x == a.v[1]
           y == b.v[1]
       IN IF IsErr(x) \/ IsErr(y) THEN Err
          \* numbers with enormous denominators may be whole up to rounding
          ELSE IF ~IsNum(x) \/ ~IsNum(y) \/ x[2] * y[2] > 100000 THEN Und
          ELSE LET up == Diff(x, y) < 0
                   n  == (Abs(Diff(x, y)) \div (x[2] * y[2])) + 1
               IN IF n > 60 THEN Und
                  ELSE MkV(Common(a.t, b.t),
                       TLCEval([i \in 1..n |->
                         <<IF up THEN x[1] + (i - 1) * x[2]
                                 ELSE x[1] - (i - 1) * x[2], x[2]>>]))

EvalRep(x, cnt) ==
  LET n == CountOf(cnt)
  IN IF Bad(x) \/ Bad(n) THEN Worst(x, n)
     ELSE IF HasErr(x.v) THEN Err
     ELSE IF n.n > 30 THEN Und
     ELSE MkV(x.t, TLCEval([i \in 1..(n.n * Len(x.v)) |-> Cyc(x.v, i)]))

EvalMatrix(x, r, c) ==
  LET nr == CountOf(r)
      nc == CountOf(c)
  IN IF Bad(x) THEN (IF nr.s = "und" \/ nc.s = "und" THEN Und ELSE x)
     ELSE IF Bad(nr) \/ Bad(nc) THEN Worst(nr, nc)
     ELSE IF HasErr(x.v) THEN Err
     ELSE IF nr.n * nc.n > 200 THEN Und
     ELSE IF x.k = "s"
          THEN Mk(x.t, "v", [i \in 1..(nr.n * nc.n) |-> x.v[1]], TRUE, nr.n, nc.n)
     ELSE IF Len(x.v) # nr.n * nc.n THEN Err
     ELSE Mk(x.t, "v", x.v, TRUE, nr.n, nc.n)

EvalAlloc(t, x) ==
  LET n == CountOf(x)
  IN IF Bad(x) THEN x
     ELSE IF Len(x.v) # 1 THEN Err
     ELSE IF Bad(n) THEN n
     ELSE IF n.n > 60 THEN Und
     ELSE MkV(t, [i \in 1..n.n |-> FF])

\* reading a single element through at()
EvalAt(x, p) ==
  IF Bad(x) \/ Bad(p) THEN Worst(x, p)
  ELSE IF ~IsPos(p.v[1]) THEN Und
  ELSE LET i == Pos(p.v[1])
       IN IF ~In(i, Len(x.v)) \/ IsErr(x.v[i]) THEN Err ELSE MkS(x.t, x.v[i])

EvalAt2(x, p, q) ==
  IF Bad(x) THEN x
  ELSE IF Bad(p) \/ Bad(q) THEN Worst(p, q)
  ELSE IF ~IsPos(p.v[1]) \/ ~IsPos(q.v[1]) THEN Und
  ELSE IF ~x.m THEN Err
  ELSE LET i == Pos(p.v[1])
           j == Pos(q.v[1])
       IN IF ~In(i, x.r) \/ ~In(j, x.c) THEN Err
          ELSE IF IsErr(x.v[(j - 1) * x.r + i]) THEN Err
          ELSE MkS(x.t, x.v[(j - 1) * x.r + i])

\* x[p]: positions start with 0
EvalItem(x, p) ==
  IF Bad(x) \/ Bad(p) THEN Worst(x, p)
  ELSE IF ~IsNum(p.v[1]) THEN Und
  ELSE LET i == Trunc(p.v[1]) + 1
       IN IF ~In(i, Len(x.v)) \/ IsErr(x.v[i]) THEN Err ELSE MkS(x.t, x.v[i])

\* a vector where a plain number is expected: its first element
EvalFirst(x) ==
  IF Bad(x) THEN x
  ELSE IF IsErr(x.v[1]) THEN Err
  ELSE IF HasErr(x.v) THEN Und ELSE MkS(x.t, x.v[1])

\* constructors of vectors and matrices from sizes, numbers and memory
EvalCtor(env, e) ==
  LET t == e[2]
      a(i) == e[3 + i]
      zeros(n) == [i \in 1..n |-> FF]
      el(x) == Conv(t, <<x[3], x[4]>>)
      els(xs, n) == [i \in 1..n |-> el(xs[i])]
      mem == env[IF a(1) = 1 THEN "m1" ELSE "m2"].v
  IN CASE e[3] = "mat" -> Mk(t, "v", zeros(a(1) * a(2)), TRUE, a(1), a(2))
       [] e[3] = "fill" -> Mk(t, "v", [i \in 1..(a(1) * a(2)) |-> el(a(3))], TRUE, a(1), a(2))
       [] e[3] = "si" -> MkV(t, zeros(a(1)))
       [] e[3] = "one" -> MkV(t, <<el(a(1))>>)
       [] e[3] = "arr" -> MkV(t, els(a(2), a(1)))
       [] e[3] = "arr2" -> Mk(t, "v", els(a(3), a(1) * a(2)), TRUE, a(1), a(2))
       [] e[3] = "mem" -> IF a(2) > Len(mem) THEN Und ELSE MkV(t, SubSeq(mem, 1, a(2)))
       [] e[3] = "mem2" -> IF a(2) * a(3) > Len(mem) THEN Und
                           ELSE Mk(t, "v", SubSeq(mem, 1, a(2) * a(3)), TRUE, a(2), a(3))

Test(f, e) ==
  IF IsErr(e) THEN e
  ELSE IF e[2] = 0 THEN B((f = "isNA") = (e[1] = 0))
  ELSE IF IsNum(e) \/ e[2] = -2 THEN FF ELSE UND

EvalTest(f, x) ==
  IF Bad(x) THEN x
  ELSE Mk("b", x.k, TLCEval([i \in 1..Len(x.v) |-> Test(f, x.v[i])]), FALSE, 0, 0)

EvalDim(x) == IF Bad(x) THEN x
              ELSE IF ~x.m THEN Err ELSE MkV("i", <<IntE(x.r), IntE(x.c)>>)
EvalLength(x) == IF Bad(x) THEN x ELSE MkS("i", IntE(Len(x.v)))

(***************************************************************************)
(* Interpolation.                                                          *)
(***************************************************************************)
Less(a, b) == Diff(a, b) < 0
\* the interval whose left node is the last one not right of t
RECURSIVE Interval(_, _, _)
Interval(ts, t, i) == IF i = Len(ts) \/ Less(t, ts[i + 1]) THEN i
                      ELSE Interval(ts, t, i + 1)

Increasing(ts) == \A i \in 1..(Len(ts) - 1) : Less(ts[i], ts[i + 1])

EvalLi(x, T, Y) ==
  IF Bad(x) THEN x ELSE IF Bad(T) \/ Bad(Y) THEN Worst(T, Y)
  ELSE IF HasErr(x.v) THEN Err
  ELSE IF Len(T.v) # Len(Y.v) \/ Len(x.v) # 1 THEN Err
  \* whether an element which must be rejected is looked at is left open
  ELSE IF HasErr(T.v) \/ HasErr(Y.v) THEN Und
  ELSE IF HasOdd(T.v) \/ HasOdd(x.v) THEN Und
  ELSE IF ~Increasing(T.v) THEN Und
  ELSE LET t == x.v[1]
           n == Len(T.v)
       IN IF ~Less(t, T.v[n]) THEN MkS("d", Y.v[n])
          ELSE IF ~Less(T.v[1], t) THEN MkS("d", Y.v[1])
          ELSE LET i  == Interval(T.v, t, 1)
                   sl == Arith("/", Arith("-", Y.v[i+1], Y.v[i]),
                                    Arith("-", T.v[i+1], T.v[i]))
               IN MkS("d", Arith("+", Arith("*", sl, Arith("-", t, T.v[i])), Y.v[i]))

\* cubic Hermite polynomial on [t1,t2] with values y1,y2 and slopes m1,m2
Hermite(t, t1, t2, y1, y2, m1, m2) ==
  LET h  == Arith("-", t2, t1)
      x  == Arith("/", Arith("-", t, t1), h)
      x2 == Arith("*", x, x)
      x3 == Arith("*", x2, x)
      a(k, e) == Arith("*", IntE(k), e)
      h00 == Arith("+", Arith("-", a(2, x3), a(3, x2)), IntE(1))
      h10 == Arith("+", Arith("-", x3, a(2, x2)), x)
      h01 == Arith("-", a(3, x2), a(2, x3))
      h11 == Arith("-", x3, x2)
  IN Arith("+", Arith("+", Arith("*", h00, y1), Arith("*", Arith("*", h10, h), m1)),
                Arith("+", Arith("*", h01, y2), Arith("*", Arith("*", h11, h), m2)))

Slope(ya, yb, ta, tb) == Arith("/", Arith("-", yb, ya), Arith("-", tb, ta))

EvalCmr(x, T, Y) ==
  IF Bad(x) THEN x ELSE IF Bad(T) \/ Bad(Y) THEN Worst(T, Y)
  ELSE IF IsErr(x.v[1]) THEN Err
  ELSE IF Len(T.v) # Len(Y.v) \/ Len(T.v) < 4 THEN Err
  ELSE IF HasErr(T.v) \/ HasErr(Y.v) THEN Und
  ELSE IF HasOdd(T.v) \/ HasOdd(x.v) THEN Und
  ELSE IF ~Increasing(T.v) THEN Und
  ELSE LET t == x.v[1]
           n == Len(T.v)
           y == Y.v
           ts == T.v
       IN IF Less(t, ts[1]) THEN MkS("d", y[1])
          ELSE IF ~Less(t, ts[n]) THEN MkS("d", y[n])
          ELSE LET i == Interval(ts, t, 1)
                   \* the neighbours of the interval, cyclically; right of the
                   \* last node time continues with the first node's time
                   \* added to the last node's
                   t0 == IF i = 1 THEN ts[n] ELSE ts[i-1]
                   y0 == IF i = 1 THEN y[n] ELSE y[i-1]
                   t3 == IF i = n - 1 THEN Arith("+", ts[1], ts[n]) ELSE ts[i+2]
                   y3 == IF i = n - 1 THEN y[1] ELSE y[i+2]
                   m1 == Slope(y0, y[i+1], t0, ts[i+1])
                   m2 == Slope(y[i], y3, ts[i], t3)
               IN IF IsUnd(m1) \/ IsUnd(m2) THEN Und    \* no such slope
                  ELSE IF t = ts[i] THEN MkS("d", y[i])
                  ELSE MkS("d", Hermite(t, ts[i], ts[i+1], y[i], y[i+1], m1, m2))

(***************************************************************************)
(* Expressions.                                                            *)
(***************************************************************************)
VarVal(x) == [s |-> "ok", t |-> x.t, k |-> "v", v |-> x.v, m |-> x.m,
              r |-> x.r, c |-> x.c]

RECURSIVE Eval(_, _), Concat(_, _, _)

Concat(env, es, i) ==
  LET x == Force(Eval(env, es[i]))
  IN IF i = Len(es) THEN (IF Bad(x) THEN x ELSE MkV(x.t, x.v))
     ELSE LET y == Concat(env, es, i + 1)
          IN IF Bad(x) \/ Bad(y) THEN Worst(x, y)
             ELSE MkV(Common(x.t, y.t), x.v \o y.v)

Eval(env, e) ==
  CASE e[1] = "var" -> VarVal(env[e[2]])
    [] e[1] = "lv" -> MkS(env[e[2]].t, env[e[2]].v[1])     \* a loop variable
    [] e[1] = "num" -> MkS(e[2], <<e[3], e[4]>>)
    [] e[1] = "bin" -> EvalBin(e[2], Eval(env, e[3]), Eval(env, e[4]))
    [] e[1] = "un"  -> EvalUn(e[2], Eval(env, e[3]))
    [] e[1] = "sub" -> EvalSub(Eval(env, e[2]), Eval(env, e[3]))
    [] e[1] = "sub2" -> EvalSub2(Eval(env, e[2]), Eval(env, e[3]), Eval(env, e[4]))
    [] e[1] = "coca" -> Concat(env, e[2], 1)
    [] e[1] = "colon" -> EvalColon(Eval(env, e[2]), Eval(env, e[3]))
    [] e[1] = "rep" -> EvalRep(Eval(env, e[2]), Eval(env, e[3]))
    [] e[1] = "matrix" -> EvalMatrix(Eval(env, e[2]), Eval(env, e[3]), Eval(env, e[4]))
    [] e[1] = "alloc" -> EvalAlloc(e[2], Eval(env, e[3]))
    [] e[1] = "at" -> EvalAt(Eval(env, e[2]), Eval(env, e[3]))
    [] e[1] = "at2" -> EvalAt2(Eval(env, e[2]), Eval(env, e[3]), Eval(env, e[4]))
    [] e[1] = "test" -> EvalTest(e[2], Eval(env, e[3]))
    [] e[1] = "dim" -> EvalDim(Eval(env, e[2]))
    [] e[1] = "length" -> EvalLength(Eval(env, e[2]))
    [] e[1] = "li" -> EvalLi(Eval(env, e[2]), Eval(env, e[3]), Eval(env, e[4]))
    [] e[1] = "cmr" -> EvalCmr(Eval(env, e[2]), Eval(env, e[3]), Eval(env, e[4]))
    [] e[1] = "item" -> EvalItem(Eval(env, e[2]), Eval(env, e[3]))
    [] e[1] = "first" -> EvalFirst(Eval(env, e[2]))
    [] e[1] = "back" -> MkS(env[e[2][2]].t, env[e[2][2]].v[Len(env[e[2][2]].v)])
    [] e[1] = "ctor" -> EvalCtor(env, e)
    \* passing a value through a function (by value / returned) is the identity
    [] e[1] = "id" -> Eval(env, e[3])

(***************************************************************************)
(* Statements.  Outcome(env, st) is a record                               *)
(*   s    "ok", "err", "und", or "any" (either rejected without any effect *)
(*        or performed)                                                    *)
(*   ch   the new values of the changed variables (a function)             *)
(*   out  what the statement reports to the user, or NoOut                 *)
(*   par  for a rejected subset assignment: which positions of which       *)
(*        variable may already hold their new value; x = "*": the          *)
(*        variables of ch may hold anything                                *)
(***************************************************************************)
NoCh  == [x \in {} |-> 0]
NoOut == [t |-> "-", v |-> <<>>, m |-> FALSE, r |-> 0, c |-> 0]
NoPar == [x |-> "", n |-> <<>>]
OErr  == [s |-> "err", ch |-> NoCh, out |-> NoOut, par |-> NoPar]
OUnd  == [s |-> "und", ch |-> NoCh, out |-> NoOut, par |-> NoPar]
OBad(x) == IF x.s = "und" THEN OUnd ELSE OErr
OSet(x, w)  == [s |-> "ok", ch |-> (x :> w), out |-> NoOut, par |-> NoPar]
\* rejected without effect, or performed: the specification leaves it open
OEither(x, w) == [s |-> "any", ch |-> (x :> w), out |-> NoOut, par |-> NoPar]
OOut(w)     == [s |-> "ok", ch |-> NoCh, out |-> w, par |-> NoPar]

Store(t, x) == [t |-> t, v |-> ConvSeq(t, x.v), m |-> x.m, r |-> x.r, c |-> x.c]
Shown(x) == [t |-> x.t, v |-> x.v, m |-> x.m, r |-> x.r, c |-> x.c]

(***************************************************************************)
(* Borrowed views: b1 is a view over the caller's memory m1 (b2 over m2).  *)
(* The memory belongs to the caller and has as many cells as were lent; the *)
(* first cells are what the view shows.                                     *)
(***************************************************************************)
Views == {"b1", "b2"}
MemOf(x) == IF x = "b1" THEN "m1" ELSE "m2"
\* the memory after the view has been left with elements v
Overlay(mem, v) == [mem EXCEPT !.v = TLCEval([i \in 1..Len(mem.v) |->
                      IF i <= Len(v) THEN v[i] ELSE mem.v[i]])]

DoAssign(env, x, val) ==
  LET w == Force(val)
  IN IF Bad(w) THEN OBad(w)
     ELSE IF x \notin Views THEN OSet(x, Store(env[x].t, w))
     ELSE IF w.k = "s" THEN OSet(x, Store(env[x].t, w))
     ELSE IF Len(w.v) > Len(env[MemOf(x)].v) THEN OErr
     \* a view shows at least as many elements as before, or the assignment
     \* of a shorter value is rejected
     ELSE IF Len(w.v) < Len(env[x].v) THEN OEither(x, Store(env[x].t, w))
     ELSE OSet(x, Store(env[x].t, w))

\* replacing the elements of variable x at positions p by the elements of w
RECURSIVE Put(_, _, _, _)
Put(v, p, w, j) ==
  IF j > Len(p) THEN v ELSE Put([v EXCEPT ![p[j]] = Cyc(w, j)], p, w, j + 1)

DoWrite(env, x, q, val) ==
  LET w  == Force(val)
      n  == Len(env[x].v)
      t  == env[x].t
  IN IF Bad(w) \/ Bad(q) THEN OBad(IF w.s = "und" \/ q.s = "und" THEN Und ELSE Err)
     ELSE IF w.k # "s" /\ Len(w.v) # Len(q.p) THEN OErr
     ELSE IF \A j \in 1..Len(q.p) : In(q.p[j], n)
          THEN OSet(x, [env[x] EXCEPT !.v = Put(env[x].v, q.p, ConvSeq(t, w.v), 1)])
          ELSE [s |-> "err", ch |-> NoCh, out |-> NoOut,
                par |-> [x |-> x, n |-> TLCEval([i \in 1..n |->
                   {Conv(t, Cyc(w.v, j)) : j \in {j \in 1..Len(q.p) : q.p[j] = i}}])]]

Truth(x) == IF Bad(x) THEN x ELSE IF IsErr(x.v[1]) THEN Err
            ELSE IF ~IsNum(x.v[1]) THEN Und ELSE [s |-> "ok", b |-> x.v[1][1] # 0]

RECURSIVE Outcome(_, _), Effect(_, _), RunAll(_, _, _), ForEach(_, _, _, _, _),
          While(_, _, _, _)

Upd(env, ch) == [y \in DOMAIN env |-> IF y \in DOMAIN ch THEN ch[y] ELSE env[y]]
Join(c1, c2) == [y \in (DOMAIN c1) \cup (DOMAIN c2) |->
                   IF y \in DOMAIN c2 THEN c2[y] ELSE c1[y]]

\* a block of statements: rejected as soon as one of them is, with the
\* effects of the earlier ones in place
RunAll(env, ss, i) ==
  IF i > Len(ss) THEN [s |-> "ok", ch |-> NoCh, out |-> NoOut, par |-> NoPar]
  ELSE LET o == Outcome(env, ss[i])
       IN IF o.s = "any" THEN OUnd
          ELSE IF o.s # "ok" THEN o
          ELSE LET r == RunAll(Upd(env, o.ch), ss, i + 1)
               IN [r EXCEPT !.ch = Join(o.ch, r.ch),
                            !.out = IF r.out.t = "-" THEN o.out ELSE r.out]

\* the variables a statement names as targets
RECURSIVE Targets(_), TargetsAll(_)
TargetsAll(ss) == UNION {Targets(ss[i]) : i \in 1..Len(ss)}
WithMems(T) == T \cup {MemOf(b) : b \in T \cap Views}
Targets(st) ==
  CASE st[1] \in {"assign", "init", "sassign", "sassign2", "atset", "atset2",
                  "eachset", "poke", "itemset", "backset", "fillv", "refill", "viaview",
                  "lend"} -> {st[2]}
    [] st[1] = "swap" -> {st[2], st[3]}
    [] st[1] = "for" -> TargetsAll(st[4])
    [] st[1] = "while" -> TargetsAll(st[3])
    [] st[1] \in {"let", "letnum"} -> TargetsAll(st[5]) \ {st[2]}
    [] st[1] = "if" -> TargetsAll(st[3]) \cup TargetsAll(st[4])
    [] st[1] = "block" -> TargetsAll(st[2])
    [] OTHER -> {}


\* for (auto name : vals) body
ForEach(env, name, vals, i, body) ==
  IF i > Len(vals.v) THEN [s |-> "ok", ch |-> NoCh, out |-> NoOut, par |-> NoPar]
  \* an element that has to be rejected: when the loop reaches it, or before;
  \* what the body assigns to is left open
  ELSE IF HasErr(vals.v)
       THEN [OErr EXCEPT !.ch = [x \in WithMems(TargetsAll(body)) |-> env[x]],
                         !.par.x = "*"]
  ELSE LET bound == (name :> [t |-> vals.t, v |-> <<vals.v[i]>>, m |-> FALSE,
                             r |-> 0, c |-> 0])
           o == RunAll(Join(env, bound), body, 1)
       IN IF o.s # "ok" THEN o
          ELSE LET r == ForEach(Upd(env, o.ch), name, vals, i + 1, body)
               IN [r EXCEPT !.ch = Join(o.ch, r.ch)]

\* while (cond) body; the program itself gives up (an exception) when the
\* condition still holds after n rounds
While(env, cond, body, n) ==
  LET b == Truth(Eval(env, cond))
  IN IF Bad(b) THEN OBad(b)
     ELSE IF ~b.b THEN [s |-> "ok", ch |-> NoCh, out |-> NoOut, par |-> NoPar]
     ELSE IF n = 0 THEN OErr
     ELSE LET o == RunAll(env, body, 1)
          IN IF o.s # "ok" THEN o
             ELSE LET r == While(Upd(env, o.ch), cond, body, n - 1)
                  IN [r EXCEPT !.ch = Join(o.ch, r.ch)]

\* a changed view changes the memory behind it
Outcome(env, st) ==
  LET o == Effect(env, st)
      w == (DOMAIN o.ch) \cap Views
  IN IF w = {} THEN o
     ELSE [o EXCEPT !.ch = [x \in (DOMAIN o.ch) \cup {MemOf(b) : b \in w} |->
             IF \E b \in w : x = MemOf(b)
             THEN LET b == CHOOSE b \in w : x = MemOf(b)
                  IN Overlay(IF x \in DOMAIN o.ch THEN o.ch[x] ELSE env[x], o.ch[b].v)
             ELSE o.ch[x]]]

Effect(env, st) ==
  CASE st[1] \in {"assign", "init"} -> DoAssign(env, st[2], Eval(env, st[3]))
    [] st[1] = "sassign" ->
         DoWrite(env, st[2], Sel(Eval(env, st[3]), Len(env[st[2]].v)), Eval(env, st[4]))
    [] st[1] = "sassign2" ->
         DoWrite(env, st[2],
                 Sel2(VarVal(env[st[2]]), Eval(env, st[3]), Eval(env, st[4])),
                 Eval(env, st[5]))
    [] st[1] = "atset" ->
         LET p == Eval(env, st[3])
             w == Eval(env, st[4])
         IN IF Bad(p) \/ Bad(w) THEN OBad(Worst(p, w))
            ELSE IF ~IsPos(p.v[1]) THEN OUnd
            ELSE LET i == Pos(p.v[1])
                     x == env[st[2]]
                 IN IF ~In(i, Len(x.v)) THEN OErr
                    ELSE OSet(st[2], [x EXCEPT !.v[i] = Conv(x.t, w.v[1])])
    [] st[1] = "atset2" ->
         LET p == Eval(env, st[3])
             q == Eval(env, st[4])
             w == Eval(env, st[5])
             x == env[st[2]]
         IN IF Bad(p) \/ Bad(q) THEN OBad(Worst(p, q))
            ELSE IF Bad(w) THEN OBad(w)
            ELSE IF ~IsPos(p.v[1]) \/ ~IsPos(q.v[1]) THEN OUnd
            ELSE LET i == Pos(p.v[1])
                     j == Pos(q.v[1])
                 IN IF ~x.m THEN OErr
                    ELSE IF ~In(i, x.r) \/ ~In(j, x.c) THEN OErr
                    ELSE OSet(st[2], [x EXCEPT !.v[(j - 1) * x.r + i] = Conv(x.t, w.v[1])])
    [] st[1] = "show" ->                       \* a query, or printing
         LET w == Force(Eval(env, st[3]))
             b == Truth(Eval(env, st[3]))
         IN IF st[2] = "cond"                   \* used as a condition
            THEN (IF Bad(b) THEN OBad(b) ELSE OOut(Shown(MkS("b", B(b.b)))))
            ELSE IF Bad(w) THEN OBad(w)
            \* visited one by one, or written to a stream
            ELSE IF st[2] \in {"range", "stream"}
                 THEN OOut([Shown(w) EXCEPT !.m = FALSE, !.r = 0, !.c = 0])
                 ELSE OOut(Shown(w))
    [] st[1] = "swap" ->
         [s |-> "ok", ch |-> (st[2] :> env[st[3]]) @@ (st[3] :> env[st[2]]),
          out |-> NoOut, par |-> NoPar]
    [] st[1] = "eachset" ->                    \* for (auto& x : v) x = x op e
         LET x == env[st[2]]
             w == Eval(env, st[4])
         IN IF Bad(w) THEN OBad(w)
            ELSE OSet(st[2], [x EXCEPT !.v = TLCEval([i \in 1..Len(x.v) |->
                    Conv(x.t, Arith(st[3], x.v[i], w.v[1]))])])
    [] st[1] = "for" ->
         LET w == Eval(env, st[3])
         IN IF Bad(w) THEN OBad(w) ELSE ForEach(env, st[2], w, 1, st[4])
    [] st[1] = "if" ->
         LET b == Truth(Eval(env, st[2]))
         IN IF Bad(b) THEN OBad(b)
            ELSE RunAll(env, IF b.b THEN st[3] ELSE st[4], 1)
    [] st[1] = "block" -> RunAll(env, st[2], 1)
    [] st[1] = "while" -> While(env, st[2], st[3], st[4])
    \* a local variable st[2] (or parameter of a function) of element type
    \* st[3], initialised with the value st[4], with scope st[5]
    [] st[1] = "let" ->
         LET w == Force(Eval(env, st[4]))
         IN IF Bad(w) THEN OBad(w)
            ELSE LET o == RunAll(Join(env, st[2] :> Store(st[3], w)), st[5], 1)
                 IN [o EXCEPT !.ch = [x \in (DOMAIN o.ch) \ {st[2]} |-> o.ch[x]],
                              !.par = IF @.x = st[2] THEN NoPar ELSE @]
    \* a number st[2] of element type st[3] with scope st[5]
    [] st[1] = "letnum" ->
         LET w == EvalFirst(Eval(env, st[4]))
         IN IF Bad(w) THEN OBad(w)
            ELSE LET o == RunAll(Join(env, st[2] :> [Store(st[3], w) EXCEPT !.m = FALSE]), st[5], 1)
                 IN [o EXCEPT !.ch = [x \in (DOMAIN o.ch) \ {st[2]} |-> o.ch[x]]]
    \* x[p] = e, counting from 0
    [] st[1] = "itemset" ->
         LET p == Eval(env, st[3])
             w == Eval(env, st[4])
             x == env[st[2]]
         IN IF Bad(p) \/ Bad(w) THEN OBad(Worst(p, w))
            ELSE IF ~IsNum(p.v[1]) THEN OUnd
            ELSE LET i == Trunc(p.v[1]) + 1
                 IN IF ~In(i, Len(x.v)) THEN OErr
                    ELSE OSet(st[2], [x EXCEPT !.v[i] = Conv(x.t, w.v[1])])
    [] st[1] = "backset" ->
         LET w == Eval(env, st[3])
             x == env[st[2]]
         IN IF Bad(w) THEN OBad(w)
            ELSE OSet(st[2], [x EXCEPT !.v[Len(x.v)] = Conv(x.t, w.v[1])])
    [] st[1] = "fillv" ->
         LET w == Eval(env, st[3])
             x == env[st[2]]
         IN IF Bad(w) THEN OBad(w)
            ELSE OSet(st[2], [x EXCEPT !.v = [i \in 1..Len(x.v) |-> Conv(x.t, w.v[1])]])
    \* x.resize(its length + st[3]) to a plain vector, then x.fill(e)
    [] st[1] = "refill" ->
         LET w == Eval(env, st[4])
             x == env[st[2]]
             n == Max(1, Len(x.v) + st[3])
         IN IF Bad(w) THEN OBad(w)
            ELSE OSet(st[2], [x EXCEPT !.v = [i \in 1..n |-> Conv(x.t, w.v[1])],
                                       !.m = FALSE, !.r = 0, !.c = 0])
    \* the caller lends the first st[3] cells (as a matrix if st[4] > 0) anew,
    \* and takes back the rest
    [] st[1] = "lend" ->
         LET m == MemOf(st[2])
             n == IF st[4] = 0 THEN st[3] ELSE st[3] * st[4]
             v == SubSeq(env[m].v, 1, n)
         IN IF n > Len(env[m].v) THEN OErr
            ELSE [OSet(m, [env[m] EXCEPT !.v = v]) EXCEPT !.ch =
                    (m :> [env[m] EXCEPT !.v = v]) @@
                    (st[2] :> [t |-> env[st[2]].t, v |-> v, m |-> st[4] > 0,
                               r |-> IF st[4] > 0 THEN st[3] ELSE 0, c |-> st[4]])]
    \* statement st[3] performed through another view of the same memory: this
    \* view shows what is in the memory then
    [] st[1] = "viaview" ->
         LET o == Outcome(env, st[3])
             m == MemOf(st[2])
         IN IF st[2] \notin DOMAIN o.ch THEN o
            ELSE [o EXCEPT !.ch[st[2]] = [env[st[2]] EXCEPT !.v =
                                             SubSeq(o.ch[m].v, 1, Len(env[st[2]].v))]]
    \* the caller writes into cell st[3] of the memory behind view st[2]
    [] st[1] = "poke" ->
         LET m == MemOf(st[2])
             e == Conv(env[m].t, <<st[4], st[5]>>)
             j == ((st[3] - 1) % Len(env[m].v)) + 1
             mm == [env[m] EXCEPT !.v[j] = e]
         IN IF j <= Len(env[st[2]].v)
            THEN [OSet(m, mm) EXCEPT !.ch = (m :> mm) @@
                    (st[2] :> [env[st[2]] EXCEPT !.v[j] = e])]
            ELSE OSet(m, mm)
=============================================================================
