------------------------------ MODULE EtrADRun ------------------------------
(***************************************************************************)
(* Explores programs over tracked variables: every run (statements, the    *)
(* independent variable, domains of the initial values) over every initial *)
(* state, checks the specification's own properties, prints each           *)
(* transition (TR) for replay into the real library.                       *)
(***************************************************************************)
EXTENDS EtrAD, Json, IOUtils

Input == JsonDeserialize(IOEnv.ETR_AD)
Lib   == Input.lib
Runs  == Input.runs
Doms  == Input.domains
Names == <<"a0", "a1", "a2", "w0", "w1">>

VARIABLES run, choice, pos, st, cap, last
vars == <<run, choice, pos, st, cap, last>>

Dom(x) == Doms[Runs[run].dom[x]]

Init ==
  /\ run \in 1..Len(Runs)
  /\ \E a \in 1..Len(Dom("a0")), b \in 1..Len(Dom("a1")), c \in 1..Len(Dom("a2")),
        d \in 1..Len(Dom("w0")), f \in 1..Len(Dom("w1")) :
       /\ choice = <<a, b, c, d, f>>
       /\ LET s0 == [x \in {Names[i] : i \in 1..5} |->
                       Dom(x)[choice[CHOOSE i \in 1..5 : Names[i] = x]]]
          IN /\ st = Seed(s0, Runs[run].iv)
             /\ cap = [x \in {Names[i] : i \in 1..5} |->
                         IF x \in {"w0", "w1"} THEN Len(s0[x].v) ELSE 0]
  /\ pos = 0
  /\ last = AOk(NoCh)

Stmt == Lib[Runs[run].k[pos + 1]]

Step ==
  /\ pos < Len(Runs[run].k)
  /\ last.s \in {"ok", "err"}
  /\ last' = AEffect(st, Runs[run].iv, cap, Stmt)
  /\ st' = Upd(st, last'.ch)
  /\ pos' = pos + 1
  /\ PrintT("TR " \o ToJson(<<run, choice, pos + 1, last'>>))
  /\ UNCHANGED <<run, choice, cap>>

Spec == Init /\ [][Step]_vars
View == <<run, choice, pos>>

-----------------------------------------------------------------------------
\* value and derivative have the same length; shapes fit; memory suffices
Consistent ==
  \A x \in Tracked(st) :
    /\ Len(st[x].v) >= 1
    /\ Len(st[x].v) = Len(st[Der(x)].v)
    /\ st[x].m => st[x].r * st[x].c = Len(st[x].v)
    /\ cap[x] > 0 => Len(st[x].v) <= cap[x]

\* only the target changes, in value and derivative; rejected changes nothing
Target == IF Stmt[1] = "assign" THEN {Stmt[2], Der(Stmt[2])} ELSE {}
Frame == [][ /\ \A x \in (DOMAIN st) \ Target : st'[x] = st[x]
             /\ last'.s # "ok" => st' = st ]_vars

\* the dual numbers agree with difference quotients where those are exact
Direction == pos < Len(Runs[run].k) /\ Stmt[1] = "assign" => DirectionOK(st, Stmt[3])

\* nothing depends on the independent variable: all derivatives stay zero
\* unless the independent variable itself is read or assigned
RECURSIVE Reads(_)
Reads(e) == CASE e[1] = "var" -> {e[2]}
              [] e[1] = "bin" -> Reads(e[3]) \cup Reads(e[4])
              [] e[1] = "sin" -> Reads(e[2])
              [] OTHER -> {}
Zeros(v) == \A i \in 1..Len(v) : v[i] \in {ZERO, UND}
RECURSIVE IsZero(_)
IsZero(t) == \/ t = ZERO \/ t = UND
             \/ t[2] = -3 /\ t[3] = "*" /\ \E i \in 1..2 : IsZero(t[4][i])
             \/ t[2] = -3 /\ t[3] = "/" /\ IsZero(t[4][1])
             \/ t[2] = -3 /\ t[3] \in {"+", "-"} /\ IsZero(t[4][1]) /\ IsZero(t[4][2])
Independent ==
  [][ last'.s = "ok" /\ Stmt[1] = "assign" /\ Stmt[2] # Runs[run].iv
      /\ (\A y \in Reads(Stmt[3]) : Zeros(st[Der(y)].v))
        => \A i \in 1..Len(st'[Der(Stmt[2])].v) : IsZero(st'[Der(Stmt[2])].v[i]) ]_vars
=============================================================================
