--------------------------- MODULE EtrStoreTrace ----------------------------
(***************************************************************************)
(* Validates recorded histories of the real storage classes (file named by *)
(* ETR_TRACE) against EtrStore; see EtrTrace for the conventions.          *)
(***************************************************************************)
EXTENDS EtrStore, Json, IOUtils

Input == JsonDeserialize(IOEnv.ETR_TRACE)
Ops   == Input.lib
Execs == Input.execs

VARIABLES e, pos, st, own, und
vars == <<e, pos, st, own, und>>

Say(tag, x) == PrintT(tag \o ToJson(x))

ElemOk(s, o, loc) ==
  IF IsUnd(s) THEN TRUE
  ELSE IF s = o THEN TRUE
  ELSE IF s[2] = -3 \/ (o[2] = -2 /\ IsNum(s)) THEN Say("OB ", <<loc, s, o>>)
  ELSE FALSE

ValOk(s, o, loc) ==
  /\ s.m = o.m
  /\ Len(s.v) = Len(o.v)
  /\ \A i \in 1..Len(s.v) : ElemOk(s.v[i], o.v[i], loc)

\* a resize beyond the length keeps the elements, or zeroes everything
GrowOk(o, obs) ==
  o.grow.x = "" \/
  LET old == o.grow.old
      new == obs[o.grow.x].v
  IN \/ \A i \in 1..Len(old) : new[i] = old[i]
     \/ \A i \in 1..Len(new) : new[i] = FF

Performed(o, ev, obs) ==
     /\ LET want == Upd(st, o.ch)
        IN \A x \in DOMAIN obs :
             IF x \notin DOMAIN o.ch THEN st[x] = obs[x]
             ELSE ValOk(want[x], obs[x], <<e, pos>>)
     /\ GrowOk(o, obs)
     /\ \/ o.out.t = "-"
        \/ ValOk(o.out, ev.out, <<e, pos>>)

Agrees(o, ev, obs) ==
  \/ o.s = "und" /\ ev.st # "exc"
  \/ o.s = ev.st /\ Performed(o, ev, obs)

Init == /\ e \in 1..Len(Execs)
        /\ pos = 0
        /\ st = Execs[e].init
        /\ own = [x \in DOMAIN st |-> FALSE]
        /\ und = FALSE

Unspecified(x) == \E i \in 1..Len(x.v) : IsUnd(x.v[i])

Next == /\ pos < Len(Execs[e].ev)
        /\ LET ev  == Execs[e].ev[pos + 1]
               o   == IF ev.k = 0 THEN SUnd ELSE Effect3(st, own, Ops[ev.k])
               obs == [x \in DOMAIN st |->
                         IF x \in DOMAIN ev.post THEN ev.post[x] ELSE st[x]]
           IN /\ pos' = pos + 1
              /\ st' = obs
              /\ own' = IF ev.k = 0 \/ ev.st # "ok" THEN own ELSE OwnAfter(st, own, Ops[ev.k])
              /\ und' = ((ev.k # 0 /\ o.s = "und") \/ \E x \in DOMAIN o.ch : Unspecified(o.ch[x]))
              /\ IF und' THEN Say("UND ", <<e, pos + 1>>) ELSE TRUE
              /\ IF Agrees(o, ev, obs) \/ ev.k = 0 THEN TRUE
                 ELSE Say("REJECT ", <<e, pos + 1, ev.k, o>>)
        /\ UNCHANGED e

Spec == Init /\ [][Next]_vars
View == <<e, pos>>
=============================================================================
