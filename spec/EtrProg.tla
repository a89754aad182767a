------------------------------- MODULE EtrProg -------------------------------
(***************************************************************************)
(* The programming model of ETR as a transition system: a state is the     *)
(* content of all variables, a step executes one statement of the library  *)
(* Lib.  TLC explores every initial environment of the small scope         *)
(* described by the domains, every statement (or chain of statements) on   *)
(* it, checks the properties below on all of these behaviours, and prints  *)
(* each transition (TR), which the harness replays into the real library.  *)
(*                                                                         *)
(* Input (JSON): lib, runs = [{k: <<statement ids>>, dom: {x: name}}],     *)
(* domains = {name: <<values>>}.                                           *)
(***************************************************************************)
EXTENDS EtrSem, FiniteSets, Json, IOUtils

Input == JsonDeserialize(IOEnv.ETR_PROG)
Lib   == Input.lib
Runs  == Input.runs
Doms  == Input.domains

VARIABLES run,      \* which run
          choice,   \* which initial environment of it
          pos,      \* statements executed so far
          env,
          last      \* outcome of the last statement

vars == <<run, choice, pos, env, last>>

Dom(r, x) == Doms[Runs[r].dom[x]]
Idx(r, x) == 1..Len(Dom(r, x))

Cells0(w) == [t |-> w.t, v |-> w.v, m |-> FALSE, r |-> 0, c |-> 0]

Init ==
  /\ run \in 1..Len(Runs)
  /\ \E a \in Idx(run, "d1"), b \in Idx(run, "d2"), c \in Idx(run, "d3"),
        d \in Idx(run, "i1"), f \in Idx(run, "i2"),
        g \in Idx(run, "l1"), h \in Idx(run, "l2"),
        p \in Idx(run, "b1"), q \in Idx(run, "b2") :
       /\ choice = <<a, b, c, d, f, g, h, p, q>>
       /\ env = [d1 |-> Dom(run, "d1")[a], d2 |-> Dom(run, "d2")[b],
                 d3 |-> Dom(run, "d3")[c], i1 |-> Dom(run, "i1")[d],
                 i2 |-> Dom(run, "i2")[f], l1 |-> Dom(run, "l1")[g],
                 l2 |-> Dom(run, "l2")[h], b1 |-> Dom(run, "b1")[p],
                 b2 |-> Dom(run, "b2")[q],
                 m1 |-> Cells0(Dom(run, "b1")[p]), m2 |-> Cells0(Dom(run, "b2")[q])]
  /\ pos = 0
  /\ last = [s |-> "ok", ch |-> NoCh, out |-> NoOut, par |-> NoPar]

Stmt == Lib[Runs[run].k[pos + 1]]

\* the state after a step whose outcome the specification determines
Step ==
  /\ pos < Len(Runs[run].k)
  /\ last.s \in {"ok", "err"} /\ last.par.x = ""
  /\ last' = Outcome(env, Stmt)
  /\ env' = IF last'.s \in {"ok", "err"} /\ last'.par.x = ""
            THEN Upd(env, last'.ch) ELSE env
  /\ pos' = pos + 1
  /\ PrintT("TR " \o ToJson(<<run, choice, pos + 1, last'>>))
  /\ UNCHANGED <<run, choice>>

Spec == Init /\ [][Step]_vars
View == <<run, choice, pos>>

-----------------------------------------------------------------------------
\* Properties of the specification itself

\* element types never change, elements fit the element type
ElemFits(t, e) == \/ e[2] \in {-1, -2, -3}
                  \/ t = "d"
                  \/ t = "i" /\ e[2] = 1
                  \/ t = "b" /\ e \in {TT, FF}
TypeOK == \A x \in DOMAIN env :
            /\ env[x].t = Input.types[x]
            /\ \A i \in 1..Len(env[x].v) : ElemFits(env[x].t, env[x].v[i])

ShapeOK == \A x \in DOMAIN env :
             /\ Len(env[x].v) >= 1
             /\ env[x].m => env[x].r * env[x].c = Len(env[x].v)

\* a view shows the memory behind it
ViewOK == \A b \in Views :
            /\ Len(env[b].v) <= Len(env[MemOf(b)].v)
            /\ SubSeq(env[MemOf(b)].v, 1, Len(env[b].v)) = env[b].v

\* only the targets of a statement change, a rejected one changes nothing
Frame == [][ /\ \A x \in (DOMAIN env) \ WithMems(Targets(Stmt)) : env'[x] = env[x]
             /\ last'.s # "ok" /\ Stmt[1] \notin {"for", "if", "block", "while", "let", "letnum"}
                  => env' = env ]_vars

\* subset assignments keep length and shape
Keeps == [][ Stmt[1] \in {"sassign", "sassign2", "atset", "atset2", "eachset", "poke",
                          "itemset", "backset", "fillv", "viaview"} =>
               LET x == Stmt[2] IN /\ Len(env'[x].v) = Len(env[x].v)
                                   /\ env'[x].m = env[x].m /\ env'[x].r = env[x].r
                                   /\ env'[x].c = env[x].c ]_vars

(***************************************************************************)
(* What some of the programs of the library are for: the specification     *)
(* itself has to make them reach their goals.                              *)
(***************************************************************************)
RECURSIVE Sum(_)
Sum(v) == IF v = <<>> THEN FF ELSE Arith("+", Sum(SubSeq(v, 1, Len(v) - 1)), v[Len(v)])
Count(v, e) == Cardinality({i \in 1..Len(v) : v[i] = e})
Plain(w) == ~HasOdd(w.v)

Goal(g, old, new) ==
  LET x == old.d1.v
      n == Len(x)
  IN CASE g = "cumsum" -> \A i \in 1..n : new.d2.v[i] = Sum(SubSeq(x, 1, i))
       [] g = "sum" -> new.d2.v = <<Sum(x)>>
       [] g = "dot" -> Len(old.d2.v) = n =>
                         new.d3.v = <<Sum([i \in 1..n |-> Arith("*", x[i], old.d2.v[i])])>>
       [] g = "max" -> /\ \E i \in 1..n : new.d2.v = <<x[i]>>
                       /\ \A i \in 1..n : ~Less(new.d2.v[1], x[i])
       [] g = "sort" -> /\ Len(new.d1.v) = n
                        /\ \A i \in 1..(n - 1) : ~Less(new.d1.v[i + 1], new.d1.v[i])
                        /\ \A i \in 1..n : Count(new.d1.v, x[i]) = Count(x, x[i])
       [] g = "reverse" -> new.d2.v = [i \in 1..n |-> x[n + 1 - i]]
       [] g = "transpose" -> \A i \in 1..2 : \A j \in 1..3 :
                               new.d2.v[(i - 1) * 3 + j] = new.d1.v[(j - 1) * 2 + i]
       [] g = "matmul" -> new.d3.v = <<<<8, 1>>, <<10, 1>>, <<11, 2>>, <<9, 1>>>>
       [] g = "gcd" -> /\ 12 % new.d2.v[1][1] = 0
                       /\ old.i2.v[1][1] % new.d2.v[1][1] = 0
       [] OTHER -> TRUE

Goals == [][ (last'.s = "ok" /\ pos' > pos /\ Input.goals[Runs[run].k[pos + 1]] # ""
              /\ Plain(env.d1))
               => Goal(Input.goals[Runs[run].k[pos + 1]], env, env') ]_vars
=============================================================================
