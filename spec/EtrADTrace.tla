----------------------------- MODULE EtrADTrace -----------------------------
(***************************************************************************)
(* Validates recorded programs over tracked variables (file named by       *)
(* ETR_TRACE) against EtrAD; see EtrTrace for the conventions.             *)
(***************************************************************************)
EXTENDS EtrAD, Json, IOUtils

Input == JsonDeserialize(IOEnv.ETR_TRACE)
Lib   == Input.lib
Execs == Input.execs

VARIABLES e, pos, st, und
vars == <<e, pos, st, und>>

Say(tag, x) == PrintT(tag \o ToJson(x))

ElemOk(s, o, loc) ==
  IF IsUnd(s) THEN TRUE
  ELSE IF s = o THEN TRUE
  ELSE IF s[2] = -3 \/ (o[2] = -2 /\ IsNum(s)) THEN Say("OB ", <<loc, s, o>>)
  ELSE FALSE

ValOk(s, o, loc) ==
  /\ s.m = o.m /\ (s.m => s.r = o.r /\ s.c = o.c)
  /\ Len(s.v) = Len(o.v)
  /\ \A i \in 1..Len(s.v) : ElemOk(s.v[i], o.v[i], loc)

Cap == [x \in Tracked(Execs[e].init) |->
          IF x \in {"w0", "w1"} THEN Len(Execs[e].init[x].v) ELSE 0]

\* the execution starts from seeded derivatives
Seeded(w, iv) == w = Seed([x \in Tracked(w) |-> w[x]], iv)

Performed(o, obs) ==
  \A x \in DOMAIN obs :
    IF x \notin DOMAIN o.ch THEN st[x] = obs[x]
    ELSE ValOk(o.ch[x], obs[x], <<e, pos>>)

Lengths(obs) == \A x \in Tracked(obs) : Len(obs[x].v) = Len(obs[Der(x)].v)

Agrees(o, ev, obs) ==
  \/ o.s = "und" /\ ev.st # "exc"
  \/ /\ o.s = ev.st /\ Lengths(obs) /\ Performed(o, obs)
     /\ \/ o.out.t = "-"
        \/ "out" \in DOMAIN ev /\ ValOk(o.out, ev.out, <<e, pos>>)

Init == /\ e \in 1..Len(Execs)
        /\ pos = 0
        /\ st = Execs[e].init
        /\ und = FALSE
        /\ IF Seeded(st, Execs[e].iv) THEN TRUE
           ELSE Say("REJECT ", <<e, 0, 0, AOk(Seed([x \in Tracked(st) |-> st[x]], Execs[e].iv))>>)

Unspecified(x) == \E i \in 1..Len(x.v) : IsUnd(x.v[i])

Next == /\ pos < Len(Execs[e].ev)
        /\ LET ev  == Execs[e].ev[pos + 1]
               o   == AEffect(st, Execs[e].iv, Cap, Lib[ev.k])
               obs == [x \in DOMAIN st |->
                         IF x \in DOMAIN ev.post THEN ev.post[x] ELSE st[x]]
           IN /\ pos' = pos + 1
              /\ st' = obs
              /\ und' = (o.s = "und" \/ \E x \in DOMAIN o.ch : Unspecified(o.ch[x]))
              /\ IF und' THEN Say("UND ", <<e, pos + 1>>) ELSE TRUE
              /\ IF Agrees(o, ev, obs) THEN TRUE
                 ELSE Say("REJECT ", <<e, pos + 1, ev.k, o>>)
        /\ UNCHANGED e

Spec == Init /\ [][Next]_vars
View == <<e, pos>>
=============================================================================
